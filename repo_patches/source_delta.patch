From 39a773100998f5c9a96dca8245e95bedb9ec776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:20 +0000
Subject: [PATCH 01/26] hook: bind std to a model-checked drop-in under --cfg
 moka_mc

---
 src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 71d8aa0..d14ffbb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,6 +236,21 @@ compile_error!(
     `moka` crate. Please update your dependencies in Cargo.toml"
 );
 
+// Verification hook (off unless built with `--cfg moka_mc`): binds the name `std` of
+// this crate to a model-checked drop-in, so that every atomic operation, lock, sleep and
+// clock reading of the crate is controlled by the model checker. The drop-in replaces
+// the `equivalent` dependency through `[patch.crates-io]`.
+#[cfg(moka_mc)]
+extern crate equivalent as std;
+
+// Verification hook (off unless built with `--cfg moka_mc_inner`): gives the model
+// checker's drivers access to the crate's internal data structures.
+#[cfg(moka_mc_inner)]
+#[doc(hidden)]
+pub mod mc_inner {
+    include!(env!("MOKA_MC_INNER"));
+}
+
 // Reexport(s)
 pub use equivalent::Equivalent;
 
-- 
2.43.0


From 417882df32378ece1a3d88dde54899a4616a803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 02/26] fix: remove and compute no longer return an expired or
 invalidated value

---
 src/future/base_cache.rs | 16 ++++++++++++++++
 src/future/cache.rs      |  3 +++
 src/sync/base_cache.rs   | 16 ++++++++++++++++
 src/sync/cache.rs        |  3 +++
 4 files changed, 38 insertions(+)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..1447711 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -221,6 +221,22 @@ where
         self.inner.hash(key)
     }
 
+    /// Returns `true` if the entry is neither expired nor invalidated.
+    pub(crate) fn is_live_entry(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        now: Instant,
+    ) -> bool {
+        let i = &self.inner;
+        let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
+
+        !is_expired_by_per_entry_ttl(entry.entry_info(), now)
+            && !is_expired_entry_wo(ttl, va, entry, now)
+            && !is_expired_entry_ao(tti, va, entry, now)
+            && !i.is_invalidated_entry(key, entry)
+    }
+
     pub(crate) fn contains_key_with_hash<Q>(&self, key: &Q, hash: u64) -> bool
     where
         Q: Equivalent<K> + Hash + ?Sized,
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 07eb6e3..754d261 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1961,6 +1961,9 @@ where
             Some(kv) => {
                 let now = self.base.current_time();
 
+                // An expired or invalidated value is discarded but never returned.
+                let need_value = need_value && self.base.is_live_entry(&kv.key, &kv.entry, now);
+
                 let maybe_v = if need_value {
                     Some(kv.entry.value.clone())
                 } else {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..79d963f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -195,6 +195,22 @@ where
         self.inner.hash(key)
     }
 
+    /// Returns `true` if the entry is neither expired nor invalidated.
+    pub(crate) fn is_live_entry(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        now: Instant,
+    ) -> bool {
+        let i = &self.inner;
+        let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
+
+        !is_expired_by_per_entry_ttl(entry.entry_info(), now)
+            && !is_expired_entry_wo(ttl, va, entry, now)
+            && !is_expired_entry_ao(tti, va, entry, now)
+            && !i.is_invalidated_entry(key, entry)
+    }
+
     pub(crate) fn contains_key_with_hash<Q>(&self, key: &Q, hash: u64) -> bool
     where
         Q: Equivalent<K> + Hash + ?Sized,
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..5bcb9de 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1603,6 +1603,9 @@ where
             Some(kv) => {
                 let now = self.base.current_time();
 
+                // An expired or invalidated value is discarded but never returned.
+                let need_value = need_value && self.base.is_live_entry(&kv.key, &kv.entry, now);
+
                 let info = kv.entry.entry_info();
                 let entry_gen = info.incr_entry_gen();
 
-- 
2.43.0


From b90ee3ccfa638ce1daee3fd78dad517149571fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:21 +0000
Subject: [PATCH 03/26] fix: report values past their per-entry deadline as
 expired when overwritten or removed

---
 src/common/concurrent.rs |  2 ++
 src/future/base_cache.rs | 10 ++++++++++
 src/sync/base_cache.rs   | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index eb8fec4..5505852 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -387,6 +387,7 @@ pub(crate) struct OldEntryInfo<K, V> {
     pub(crate) entry: MiniArc<ValueEntry<K, V>>,
     pub(crate) last_accessed: Option<Instant>,
     pub(crate) last_modified: Option<Instant>,
+    pub(crate) expiration_time: Option<Instant>,
 }
 
 impl<K, V> OldEntryInfo<K, V> {
@@ -395,6 +396,7 @@ impl<K, V> OldEntryInfo<K, V> {
             entry: MiniArc::clone(entry),
             last_accessed: entry.last_accessed(),
             last_modified: entry.last_modified(),
+            expiration_time: entry.entry_info().expiration_state().0,
         }
     }
 }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 1447711..ab61de5 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -611,6 +611,7 @@ where
                     &old_info.entry,
                     old_info.last_accessed,
                     old_info.last_modified,
+                    old_info.expiration_time,
                 )
                 .shared();
             // Async Cancellation Safety: To ensure the above future should be
@@ -2561,6 +2562,7 @@ where
         entry: &MiniArc<ValueEntry<K, V>>,
         last_accessed: Option<Instant>,
         last_modified: Option<Instant>,
+        expiration_time: Option<Instant>,
     ) -> BoxFuture<'static, ()> {
         use futures_util::future::FutureExt;
 
@@ -2583,6 +2585,10 @@ where
             }
         }
 
+        if expiration_time.is_some_and(|ts| ts <= now) {
+            cause = RemovalCause::Expired;
+        }
+
         if let Some(notifier) = &self.removal_notifier {
             let notifier = Arc::clone(notifier);
             let value = entry.value.clone();
@@ -2608,6 +2614,10 @@ where
 
         let mut cause = RemovalCause::Explicit;
 
+        if is_expired_by_per_entry_ttl(entry.entry_info(), now) {
+            cause = RemovalCause::Expired;
+        }
+
         if let Some(last_accessed) = entry.last_accessed() {
             if is_expired_by_tti(&exp.time_to_idle(), last_accessed, now) {
                 cause = RemovalCause::Expired;
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 79d963f..bacfb3f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -605,6 +605,7 @@ where
                 &old_info.entry,
                 old_info.last_accessed,
                 old_info.last_modified,
+                old_info.expiration_time,
             );
         }
         crossbeam_epoch::pin().flush();
@@ -2355,6 +2356,7 @@ where
         entry: &MiniArc<ValueEntry<K, V>>,
         last_accessed: Option<Instant>,
         last_modified: Option<Instant>,
+        expiration_time: Option<Instant>,
     ) {
         let now = self.current_time();
         let exp = &self.expiration_policy;
@@ -2375,6 +2377,10 @@ where
             }
         }
 
+        if expiration_time.is_some_and(|ts| ts <= now) {
+            cause = RemovalCause::Expired;
+        }
+
         self.notify_single_removal(key, entry, cause);
     }
 
@@ -2385,6 +2391,10 @@ where
 
         let mut cause = RemovalCause::Explicit;
 
+        if is_expired_by_per_entry_ttl(entry.entry_info(), now) {
+            cause = RemovalCause::Expired;
+        }
+
         if let Some(last_accessed) = entry.last_accessed() {
             if is_expired_by_tti(&exp.time_to_idle(), last_accessed, now) {
                 cause = RemovalCause::Expired;
-- 
2.43.0


From 546ff6e3c4e75d213459a7e975bd4d7421ca2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:30 +0000
Subject: [PATCH 04/26] fix: conditional inserts report the replaced value and
 never consult the condition on a dead one

---
 src/future/base_cache.rs | 10 +++-------
 src/future/cache.rs      | 12 +++++++++++-
 src/sync/base_cache.rs   | 10 +++-------
 src/sync/cache.rs        | 15 +++++++++++++--
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ab61de5..9bf14ba 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -281,13 +281,6 @@ where
         let maybe_kv_and_op = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -298,6 +291,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().is_some_and(|f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let mut is_expiry_modified = false;
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 754d261..dc35390 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1575,6 +1575,16 @@ where
         replace_if: Option<impl FnMut(&V) -> bool + Send>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Set to `true` when `replace_if` asked to replace the existing value.
+        let mut is_replacing = false;
+        let replacing = &mut is_replacing;
+        let replace_if = replace_if.map(move |mut f| {
+            move |v: &V| {
+                *replacing = f(v);
+                *replacing
+            }
+        });
+
         let k = if need_key {
             Some(Arc::clone(&key))
         } else {
@@ -1591,7 +1601,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_replacing)
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index bacfb3f..28635dc 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -300,13 +300,6 @@ where
         let maybe_entry = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -317,6 +310,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().is_some_and(|f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let maybe_key = if need_key { Some(Arc::clone(k)) } else { None };
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 5bcb9de..4693204 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -22,6 +22,7 @@ use crate::{
 use crossbeam_channel::{Sender, TrySendError};
 use equivalent::Equivalent;
 use std::{
+    cell::Cell,
     collections::hash_map::RandomState,
     fmt,
     hash::{BuildHasher, Hash},
@@ -1023,9 +1024,19 @@ where
         key: Arc<K>,
         hash: u64,
         init: impl FnOnce() -> V,
-        mut replace_if: Option<impl FnMut(&V) -> bool>,
+        replace_if: Option<impl FnMut(&V) -> bool>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Set to `true` when `replace_if` asked to replace the existing value.
+        let is_replacing = Cell::new(false);
+        let replacing = &is_replacing;
+        let mut replace_if = replace_if.map(|mut f| {
+            move |v: &V| {
+                replacing.set(f(v));
+                replacing.get()
+            }
+        });
+
         let get = || {
             self.base
                 .get_with_hash_without_recording(&*key, hash, replace_if.as_mut())
@@ -1047,7 +1058,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_replacing.get())
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
-- 
2.43.0


From 97b94ca3296baed984cf5eb7ae12bf3085974607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:30 +0000
Subject: [PATCH 05/26] fix: or_try_insert_with by reference returns an entry
 with a key

---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 4693204..a49670f 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1430,7 +1430,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From 5435c8d3dcc258fdb4eb60149343ca420ddbfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:13 +0000
Subject: [PATCH 06/26] fix: keep entry count and weighted size exact when
 write ops arrive out of order

Two writers of one key can send their WriteOps in the opposite order of their
changes to the hash table. Applying a stale upsert counted the weight twice, and
applying an upsert after the removal of the entry admitted a dead entry that was
never evicted. Track the weight counted for each entry, and ignore the WriteOps
of entries that have already been removed.
---
 src/common/concurrent/entry_info.rs | 28 ++++++++++++++++++++++++++++
 src/future/base_cache.rs            | 28 +++++++++++++++++++++-------
 src/sync/base_cache.rs              | 28 +++++++++++++++++++++-------
 3 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..c294552 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -11,6 +11,10 @@ pub(crate) struct EntryInfo<K> {
     /// `false`, it means the entry is _temporary_ admitted to the cache or evicted
     /// from the cache (so it should not have LRU nodes).
     is_admitted: AtomicBool,
+    /// `is_retired` becomes `true` once the entry has been removed from both the
+    /// concurrent hash table and the cache policies. A retired entry never comes
+    /// back, so a `WriteOp` of it that arrives later must not be applied.
+    is_retired: AtomicBool,
     /// `entry_gen` (entry generation) is incremented every time the entry is updated
     /// in the concurrent hash table.
     entry_gen: AtomicU16,
@@ -35,6 +39,9 @@ pub(crate) struct EntryInfo<K> {
     last_accessed: AtomicInstant,
     last_modified: AtomicInstant,
     policy_weight: AtomicU32,
+    /// The weight that this entry currently contributes to the weighted size of the
+    /// cache. (`policy_weight` is updated before the `WriteOp` is applied)
+    counted_weight: AtomicU32,
 }
 
 impl<K> EntryInfo<K> {
@@ -46,6 +53,7 @@ impl<K> EntryInfo<K> {
         Self {
             key_hash,
             is_admitted: AtomicBool::default(),
+            is_retired: AtomicBool::default(),
             // `entry_gen` starts at 1 and `policy_gen` start at 0.
             entry_gen: AtomicU16::new(1),
             policy_gen: AtomicU16::new(0),
@@ -54,6 +62,7 @@ impl<K> EntryInfo<K> {
             last_accessed: AtomicInstant::new(timestamp),
             last_modified: AtomicInstant::new(timestamp),
             policy_weight: AtomicU32::new(policy_weight),
+            counted_weight: AtomicU32::default(),
         }
     }
 
@@ -72,6 +81,16 @@ impl<K> EntryInfo<K> {
         self.is_admitted.store(value, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn is_retired(&self) -> bool {
+        self.is_retired.load(Ordering::Acquire)
+    }
+
+    #[inline]
+    pub(crate) fn set_retired(&self) {
+        self.is_retired.store(true, Ordering::Release);
+    }
+
     /// Returns `true` if the `ValueEntry` having this `EntryInfo` is dirty.
     ///
     /// Dirty means that the entry has been updated in the concurrent hash table but
@@ -131,6 +150,15 @@ impl<K> EntryInfo<K> {
         self.policy_weight.store(size, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn counted_weight(&self) -> u32 {
+        self.counted_weight.load(Ordering::Acquire)
+    }
+
+    pub(crate) fn set_counted_weight(&self, size: u32) {
+        self.counted_weight.store(size, Ordering::Release);
+    }
+
     /// Atomically reads both `expiration_time` and `expiry_gen` as a single unit.
     /// Returns `(expiration_time, expiry_gen)` where expiration_time is None if unset.
     ///
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 9bf14ba..de3a16d 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1573,14 +1573,13 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
+                    old_weight: _,
                     new_weight,
                 }) => {
                     self.handle_upsert(
                         kh,
                         entry,
                         gen,
-                        old_weight,
                         new_weight,
                         deqs,
                         timer_wheel,
@@ -1612,7 +1611,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1623,11 +1621,22 @@ where
     {
         {
             let counters = &mut eviction_state.counters;
+            let info = entry.entry_info();
+
+            if info.is_retired() {
+                // `WriteOp`s of concurrent writers can arrive out of order: the entry
+                // has already been removed after this write.
+                return;
+            }
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // (This `WriteOp` may be older than the one applied previously, so
+                // take the current weight of the entry)
+                let weight = entry.policy_weight();
+                counters.saturating_sub(0, info.counted_weight());
+                counters.saturating_add(0, weight);
+                info.set_counted_weight(weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1665,6 +1674,7 @@ where
                     },
                 );
                 if let Some(entry) = removed {
+                    entry.entry_info().set_retired();
                     if eviction_state.is_notifier_enabled() {
                         let key = Arc::clone(&kh.key);
                         eviction_state
@@ -1771,6 +1781,7 @@ where
                 );
 
                 if let Some(entry) = removed {
+                    entry.entry_info().set_retired();
                     entry.entry_info().set_policy_gen(gen);
                     if eviction_state.is_notifier_enabled() {
                         eviction_state
@@ -1876,6 +1887,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_counted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1978,9 +1990,10 @@ where
         gen: Option<u16>,
         counters: &mut EvictionCounters,
     ) {
+        entry.entry_info().set_retired();
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -2008,9 +2021,10 @@ where
             // taken (cleared) the timer_node, so we can ignore the return value.
             let _ = timer_wheel.deschedule(timer, expiry_gen);
         }
+        entry.entry_info().set_retired();
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 28635dc..9d085c8 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1425,13 +1425,12 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
+                    old_weight: _,
                     new_weight,
                 }) => self.handle_upsert(
                     kh,
                     entry,
                     gen,
-                    old_weight,
                     new_weight,
                     deqs,
                     timer_wheel,
@@ -1461,7 +1460,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1472,11 +1470,22 @@ where
     {
         {
             let counters = &mut eviction_state.counters;
+            let info = entry.entry_info();
+
+            if info.is_retired() {
+                // `WriteOp`s of concurrent writers can arrive out of order: the entry
+                // has already been removed after this write.
+                return;
+            }
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // (This `WriteOp` may be older than the one applied previously, so
+                // take the current weight of the entry)
+                let weight = entry.policy_weight();
+                counters.saturating_sub(0, info.counted_weight());
+                counters.saturating_add(0, weight);
+                info.set_counted_weight(weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1510,6 +1519,7 @@ where
                     },
                 );
                 if let Some(entry) = removed {
+                    entry.entry_info().set_retired();
                     if eviction_state.is_notifier_enabled() {
                         let key = Arc::clone(&kh.key);
                         eviction_state.notify_entry_removal(key, &entry, RemovalCause::Size);
@@ -1608,6 +1618,7 @@ where
                 );
 
                 if let Some(entry) = removed {
+                    entry.entry_info().set_retired();
                     entry.entry_info().set_policy_gen(gen);
                     if eviction_state.is_notifier_enabled() {
                         eviction_state.notify_entry_removal(key, &entry, RemovalCause::Size);
@@ -1711,6 +1722,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_counted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1814,9 +1826,10 @@ where
         gen: Option<u16>,
         counters: &mut EvictionCounters,
     ) {
+        entry.entry_info().set_retired();
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -1844,9 +1857,10 @@ where
             // taken (cleared) the timer_node, so we can ignore the return value.
             let _ = timer_wheel.deschedule(timer, expiry_gen);
         }
+        entry.entry_info().set_retired();
         if entry.is_admitted() {
             entry.set_admitted(false);
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
-- 
2.43.0


From 1de6079adb35ffc197293812944564f63d26e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:13 +0000
Subject: [PATCH 07/26] fix: do not expand the hash table when its length is
 transiently below zero

Removing a key whose insertion had not yet incremented the length wrapped it to
usize::MAX, and every other writer of the segment doubled the bucket array until
the inserting thread went on.
---
 src/cht/map/bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index c6b76a5..f3967fe 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -725,7 +725,9 @@ impl RehashOp {
         let real_cap = cap as f64 * 2.0;
         let quarter_cap = real_cap / 4.0;
         let tbc = tombstone_count.load(Ordering::Relaxed) as f64;
-        let len = len.load(Ordering::Relaxed) as f64;
+        // A thread increments `len` after it has published the bucket, so another
+        // thread that removed that bucket may have decremented `len` earlier.
+        let len = (len.load(Ordering::Relaxed) as isize).max(0) as f64;
 
         if tbc >= 25_000.0 || tbc / real_cap >= 0.1 {
             if len - tbc < quarter_cap && quarter_cap as usize >= BUCKET_ARRAY_DEFAULT_LENGTH {
-- 
2.43.0


From 760d81fb7c4808867e5c900f0a5c70e1dc3c07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 08/26] fix: do not leak the value of a hash table insertion
 that lost the race

insert_if_not_present dropped the bucket it had prepared, but not the value in it
(MaybeUninit), when another thread had inserted the key in the meantime.
---
 src/cht/map/bucket.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index f3967fe..8d7332a 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -189,6 +189,11 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
 
                 if !is_tombstone(this_bucket_ptr) {
                     // Found. Return it.
+                    if let InsertOrModifyState::AttemptedInsertion(mut bucket) = state {
+                        // The value in the bucket we could not insert will not be
+                        // dropped with the bucket.
+                        unsafe { ptr::drop_in_place(bucket.maybe_value.as_mut_ptr()) };
+                    }
                     return Ok(InsertionResult::AlreadyPresent(this_bucket_ptr));
                 }
             }
-- 
2.43.0


From 7a9e6bf02f3f4f850d39ca7e30e6e0a829daf6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:57 +0000
Subject: [PATCH 09/26] fix: never remove an entry without the key lock when
 the listener is enabled

A removal that did not find the key went on without the key lock and could remove
a value inserted in the meantime, so its notification could overtake the one for
the value before it.
---
 src/future/cache.rs | 26 ++++++++++----------------
 src/sync/cache.rs   | 18 ++++++------------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/future/cache.rs b/src/future/cache.rs
index dc35390..ac546eb 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1948,22 +1948,16 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = if let Some(lock) = &kl {
-                    Some(lock.lock().await)
-                } else {
-                    None
-                };
-            }
+            // If the key does not exist, there is nothing to remove. Do not go on
+            // without the key lock; somebody else (other thread) may insert the key
+            // at any moment.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = if let Some(lock) = &kl {
+                Some(lock.lock().await)
+            } else {
+                None
+            };
         }
 
         match self.base.remove_entry(key, hash) {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index a49670f..3f488e1 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1595,18 +1595,12 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = kl.as_ref().map(|kl| kl.lock());
-            }
+            // If the key does not exist, there is nothing to remove. Do not go on
+            // without the key lock; somebody else (other thread) may insert the key
+            // at any moment.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = kl.as_ref().map(|kl| kl.lock());
         }
 
         match self.base.remove_entry(key, hash) {
-- 
2.43.0


From 031ad1509df6df0cd018343130468cafd837a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:40 +0000
Subject: [PATCH 10/26] fix: make the key locks of the eviction listener
 mutually exclusive

A key lock was removed from the lock map when its reference count was found to be
low, but another thread could take a reference between the check and the removal,
while a third one created a second lock for the same key. Count the users in the
map, where a change makes a concurrent removal fail.
---
 src/common/concurrent/arc.rs |  1 +
 src/future/key_lock.rs       | 60 ++++++++++++++++++++++++++++--------
 src/sync/key_lock.rs         | 60 ++++++++++++++++++++++++++++--------
 3 files changed, 97 insertions(+), 24 deletions(-)

diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 0e70664..b75ef4a 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -73,6 +73,7 @@ impl<T> MiniArc<T> {
 
 impl<T: ?Sized> MiniArc<T> {
     /// Gets the number of [`MiniArc`] pointers to this allocation
+    #[cfg(test)]
     pub(crate) fn count(this: &Self) -> u32 {
         use atomic::Ordering::Acquire;
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 1365937..73d5041 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -9,7 +9,16 @@ use async_lock::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, CountedLock, S>;
+
+/// A lock in the `LockMap` and the number of `KeyLock`s using it. The count is only
+/// changed by replacing the `CountedLock` in the map, so a lock cannot be removed
+/// from the map while a new user is about to get it.
+#[derive(Clone)]
+struct CountedLock {
+    lock: MiniArc<Mutex<()>>,
+    users: usize,
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -29,12 +38,30 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
-            self.map.remove_if(
-                self.hash,
-                |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
-            );
+        let remove_if_users = |n: usize| {
+            self.map
+                .remove_if(self.hash, |k| k == &self.key, |_k, v| v.users == n)
+        };
+
+        // Remove the lock if we are the last user.
+        if remove_if_users(1).is_some() {
+            return;
+        }
+
+        let with_users = |users| CountedLock {
+            lock: self.lock.clone(),
+            users,
+        };
+        let prev = self.map.insert_with_or_modify(
+            Arc::clone(&self.key),
+            self.hash,
+            || with_users(0),
+            |_k, v| with_users(v.users - 1),
+        );
+
+        // The other users have left in the meantime.
+        if prev.map_or(true, |v| v.users == 1) {
+            remove_if_users(0);
         }
     }
 }
@@ -76,12 +103,21 @@ where
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
         let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
+        let existing = self.locks.insert_with_or_modify(
+            Arc::clone(key),
+            hash,
+            || CountedLock {
+                lock: kl.clone(),
+                users: 1,
+            },
+            |_k, v| CountedLock {
+                lock: v.lock.clone(),
+                users: v.users + 1,
+            },
+        );
+        match existing {
             None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+            Some(existing) => KeyLock::new(&self.locks, key, hash, existing.lock),
         }
     }
 }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index bde1912..3ce60a4 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -9,7 +9,16 @@ use parking_lot::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, CountedLock, S>;
+
+/// A lock in the `LockMap` and the number of `KeyLock`s using it. The count is only
+/// changed by replacing the `CountedLock` in the map, so a lock cannot be removed
+/// from the map while a new user is about to get it.
+#[derive(Clone)]
+struct CountedLock {
+    lock: MiniArc<Mutex<()>>,
+    users: usize,
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -29,12 +38,30 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
-            self.map.remove_if(
-                self.hash,
-                |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
-            );
+        let remove_if_users = |n: usize| {
+            self.map
+                .remove_if(self.hash, |k| k == &self.key, |_k, v| v.users == n)
+        };
+
+        // Remove the lock if we are the last user.
+        if remove_if_users(1).is_some() {
+            return;
+        }
+
+        let with_users = |users| CountedLock {
+            lock: self.lock.clone(),
+            users,
+        };
+        let prev = self.map.insert_with_or_modify(
+            Arc::clone(&self.key),
+            self.hash,
+            || with_users(0),
+            |_k, v| with_users(v.users - 1),
+        );
+
+        // The other users have left in the meantime.
+        if prev.map_or(true, |v| v.users == 1) {
+            remove_if_users(0);
         }
     }
 }
@@ -76,12 +103,21 @@ where
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
         let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
+        let existing = self.locks.insert_with_or_modify(
+            Arc::clone(key),
+            hash,
+            || CountedLock {
+                lock: kl.clone(),
+                users: 1,
+            },
+            |_k, v| CountedLock {
+                lock: v.lock.clone(),
+                users: v.users + 1,
+            },
+        );
+        match existing {
             None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+            Some(existing) => KeyLock::new(&self.locks, key, hash, existing.lock),
         }
     }
 }
-- 
2.43.0


From 4b4e9089736dc91fae32baa997e5b4df4e312347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 11/26] fix: get_with waiters no longer collide with
 try_get_with whose error type is ()

---
 src/future.rs                   | 4 ++++
 src/future/value_initializer.rs | 4 ++--
 src/sync.rs                     | 4 ++++
 src/sync/value_initializer.rs   | 4 ++--
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 84ae55f..7cbe183 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -35,6 +35,10 @@ pub type PredicateId = String;
 
 pub(crate) type PredicateIdStr<'a> = &'a str;
 
+// Empty struct to identify the waiters of `get_with`. It must not be a type that can
+// be the error type of `try_get_with`.
+pub(crate) struct GetWithNone;
+
 // Empty struct to be used in `InitResult::InitErr` to represent the Option None.
 pub(crate) struct OptionallyNone;
 
diff --git a/src/future/value_initializer.rs b/src/future/value_initializer.rs
index f913cd5..d282f81 100644
--- a/src/future/value_initializer.rs
+++ b/src/future/value_initializer.rs
@@ -15,7 +15,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNone, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -603,7 +603,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
diff --git a/src/sync.rs b/src/sync.rs
index f9210e5..82b8de2 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -33,6 +33,10 @@ pub trait ConcurrentCacheExt<K, V> {
     fn sync(&self);
 }
 
+// Empty struct to identify the waiters of `get_with`. It must not be a type that can
+// be the error type of `try_get_with`.
+pub(crate) struct GetWithNone;
+
 // Empty struct to be used in `InitResult::InitErr` to represent the Option None.
 pub(crate) struct OptionallyNone;
 
diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 42d02a1..11f573b 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -12,7 +12,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNone, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -345,7 +345,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
-- 
2.43.0


From 432233212ffe945f678f6d695d192d18489f001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:06 +0000
Subject: [PATCH 12/26] fix: send the write op of the entry that was actually
 stored when an insertion is retried

---
 src/future/base_cache.rs | 37 +++++++++++++------------------------
 src/sync/base_cache.rs   | 36 ++++++++++++------------------------
 2 files changed, 25 insertions(+), 48 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index de3a16d..d2b4ab3 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -46,7 +46,7 @@ use std::{
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -494,8 +494,6 @@ where
         self.retry_interrupted_ops().await;
 
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Arc::new(AtomicU8::new(0));
-        let op_cnt2 = Arc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -509,27 +507,21 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
         // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // closures can be executed more than once. The return value tells if the
+        // actual operation was insert or update: if it is some, the value made by
+        // the last call of on_modify was stored, otherwise the one made by on_insert.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -542,22 +534,19 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
+        let is_update = old_entry.is_some();
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_entry, upd_op))) => {
-                self.do_post_update_steps(ts, key, old_entry, upd_op, &self.interrupted_op_ch_snd)
+        match (is_update, op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
+                self.do_post_update_steps(ts, key, old_info, upd_op, &self.interrupted_op_ch_snd)
                     .await
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 9d085c8..0113bbc 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -39,9 +39,8 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    rc::Rc,
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -498,8 +497,6 @@ where
         value: V,
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Rc::new(AtomicU8::new(0));
-        let op_cnt2 = Rc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -509,27 +506,21 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
         // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // closures can be executed more than once. The return value tells if the
+        // actual operation was insert or update: if it is some, the value made by
+        // the last call of on_modify was stored, otherwise the one made by on_insert.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -542,21 +533,18 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
+        let is_update = old_entry.is_some();
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_info, upd_op))) => {
+        match (is_update, op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
                 self.do_post_update_steps(ts, key, old_info, upd_op)
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
-- 
2.43.0


From 926d4173d9716ac07352a7ec75c87521345d505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 13/26] fix: access, modification and invalidation times never
 go back

---
 src/common/time/atomic_time.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..99e7f50 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -47,11 +47,24 @@ impl AtomicInstant {
         }
     }
 
-    /// Sets the `Instant`.
+    /// Sets the `Instant`, unless a later one has already been set. (A thread can be
+    /// delayed between reading the clock and calling this method)
     pub(crate) fn set_instant(&self, instant: Instant) {
         // Ensure the `Instant` is not `u64::MAX`, which means unset.
         debug_assert!(instant.as_nanos() != u64::MAX);
 
-        self.instant.store(instant.as_nanos(), Ordering::Release);
+        let new = instant.as_nanos();
+        let mut current = self.instant.load(Ordering::Acquire);
+        while current == u64::MAX || current < new {
+            match self.instant.compare_exchange_weak(
+                current,
+                new,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return,
+                Err(actual) => current = actual,
+            }
+        }
     }
 }
-- 
2.43.0


From 60aa8728a529b7d5c0c08cdfa51ae09ac4396d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 14/26] fix: invalidation predicates are never skipped or
 retired before their entries were scanned

---
 src/future/base_cache.rs  | 16 ++++++--
 src/future/invalidator.rs | 78 +++++++++++++++++++++------------------
 src/sync/base_cache.rs    | 16 ++++++--
 src/sync/invalidator.rs   | 78 +++++++++++++++++++++------------------
 4 files changed, 112 insertions(+), 76 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index d2b4ab3..d3bb430 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1323,6 +1323,12 @@ where
 
         loop {
             if should_process_logs {
+                if let Some(invalidator) = &self.invalidator {
+                    if !invalidator.is_empty() {
+                        invalidator.prepare_scan().await;
+                    }
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
@@ -2380,12 +2386,14 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
+        if !invalidator.is_scanning().await {
+            return;
+        }
 
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // of this scan.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.finish_scan().await;
             return;
         }
 
@@ -2414,6 +2422,8 @@ where
         }
 
         if len == 0 {
+            // All the entries are dirty. Start over in the next run.
+            deqs.write_order.reset_cursor();
             return;
         }
 
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..fa2d661 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -12,7 +12,7 @@ use async_lock::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -50,7 +50,9 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates in the registry. This is incremented before a
+    /// predicate is added and decremented after a predicate is removed.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,37 +72,45 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Starts a new scan for the predicates registered by now, unless a scan is in
+    /// progress.
+    ///
+    /// This must be called before applying the pending write ops to the cache
+    /// policies. Otherwise the scan could miss an entry that was inserted before the
+    /// predicate was registered.
+    pub(crate) async fn prepare_scan(&self)
     where
-        K: Hash + Eq + Send + Sync + 'static,
-        V: Clone + Send + Sync + 'static,
+        K: 'static,
+        V: 'static,
         S: BuildHasher,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        let mut predicates = self.scan_context.predicates.lock().await;
+        if predicates.is_empty() {
+            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
         }
+    }
 
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
+    /// Removes the predicates of the current scan.
+    pub(crate) async fn finish_scan(&self)
+    where
+        K: Hash + Eq,
+        S: BuildHasher + Send + Sync + 'static,
+    {
+        let predicates = self.scan_context.predicates.lock().await;
+        self.remove_finished_predicates(predicates, false, None);
+    }
+
+    pub(crate) async fn is_scanning(&self) -> bool {
+        !self.scan_context.predicates.lock().await.is_empty()
     }
 
     pub(crate) fn register_predicate(
@@ -126,8 +136,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -171,11 +181,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        let mut predicates = self.scan_context.predicates.lock().await;
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
-
+        let predicates = self.scan_context.predicates.lock().await;
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
 
@@ -194,9 +200,9 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -221,12 +227,14 @@ where
         false
     }
 
+    /// Returns `true` if the scan has been completed.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -248,6 +256,8 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -258,11 +268,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 0113bbc..31a7f35 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1197,6 +1197,12 @@ where
 
         loop {
             if should_process_logs {
+                if let Some(invalidator) = &self.invalidator {
+                    if !invalidator.is_empty() {
+                        invalidator.prepare_scan();
+                    }
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
@@ -2182,12 +2188,14 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
+        if !invalidator.is_scanning() {
+            return;
+        }
 
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // of this scan.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.finish_scan();
             return;
         }
 
@@ -2216,6 +2224,8 @@ where
         }
 
         if len == 0 {
+            // All the entries are dirty. Start over in the next run.
+            deqs.write_order.reset_cursor();
             return;
         }
 
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..6ffe41c 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -12,7 +12,7 @@ use parking_lot::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -50,7 +50,9 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates in the registry. This is incremented before a
+    /// predicate is added and decremented after a predicate is removed.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,37 +72,45 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Starts a new scan for the predicates registered by now, unless a scan is in
+    /// progress.
+    ///
+    /// This must be called before applying the pending write ops to the cache
+    /// policies. Otherwise the scan could miss an entry that was inserted before the
+    /// predicate was registered.
+    pub(crate) fn prepare_scan(&self)
     where
-        K: Hash + Eq + Send + Sync + 'static,
-        V: Clone + Send + Sync + 'static,
+        K: 'static,
+        V: 'static,
         S: BuildHasher,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        let mut predicates = self.scan_context.predicates.lock();
+        if predicates.is_empty() {
+            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
         }
+    }
 
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
+    /// Removes the predicates of the current scan.
+    pub(crate) fn finish_scan(&self)
+    where
+        K: Hash + Eq,
+        S: BuildHasher,
+    {
+        let predicates = self.scan_context.predicates.lock();
+        self.remove_finished_predicates(predicates, false, None);
+    }
+
+    pub(crate) fn is_scanning(&self) -> bool {
+        !self.scan_context.predicates.lock().is_empty()
     }
 
     pub(crate) fn register_predicate(
@@ -126,8 +136,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -171,11 +181,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        let mut predicates = self.scan_context.predicates.lock();
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
-
+        let predicates = self.scan_context.predicates.lock();
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
 
@@ -194,9 +200,9 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -221,12 +227,14 @@ where
         false
     }
 
+    /// Returns `true` if the scan has been completed.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -248,6 +256,8 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -258,11 +268,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates.iter() {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
-- 
2.43.0


From a81ad6222a4ce2dbc5a2b716f4d9ca013a239785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/26] fix: entries stay evictable and expirable after their
 65536th update

---
 src/common/concurrent/entry_info.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index c294552..c960c85 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -124,11 +124,10 @@ impl<K> EntryInfo<K> {
         loop {
             let current = g.load(Ordering::Acquire);
 
-            // Do not set the given value if it is smaller than the current value of
-            // `policy_gen`. Note that the current value may have been wrapped
-            // around. If the value is much larger than the current value, it is
-            // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            // Do not set the given value if it is older than the current value of
+            // `policy_gen`. Note that either of them may have been wrapped around,
+            // so compare their distance (modulo 2^16) instead of their values.
+            if current == value || value.wrapping_sub(current) > u16::MAX / 2 {
                 break;
             }
 
-- 
2.43.0


From 42eff5a707bc21f1b953646edbf0ca3183707a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 16/26] fix: do not miss the event that the write op channel
 has room (future)

A task that found the write op channel full started to listen to the ready
event after that check. When the last maintenance run completed in between, the
event was lost, and the task waited until another task used the cache.
---
 src/future/base_cache.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index d3bb430..aab3e9f 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -678,7 +678,25 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                ch_ready_event.listen().await;
+                // Start listening before checking the channel again. Otherwise we could
+                // miss an event sent between the check above and the `listen` call.
+                let listener = ch_ready_event.listen();
+
+                match ch.try_send(op) {
+                    Ok(()) => return Ok(()),
+                    Err(TrySendError::Full(op1)) => {
+                        op = op1;
+                    }
+                    Err(e @ TrySendError::Disconnected(_)) => return Err(e),
+                }
+
+                // The channel was full after we had started listening, so the event
+                // will be sent, unless nobody is running (or is going to run) the
+                // `do_run_pending_tasks` method. Run it here in that case.
+                BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper)
+                    .await;
+
+                listener.await;
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
-- 
2.43.0


From 7457a64572a7db85301a6c9d44836f33eabbc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 17/26] fix: wake the waiting tasks when a maintenance run is
 cancelled (future)

When the task running the maintenance was dropped while it was awaiting, the
tasks waiting for the write op channel to have room were not notified. They
waited until another task used the cache.
---
 src/future/housekeeper.rs | 44 ++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..aae1dfe 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -117,15 +117,18 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
+        // method for the write op channel, notify them when the `current_task` lock
+        // has been freed.
+        //
+        // Async Cancellation Safety: They must be notified even if we are cancelled
+        // while we are awaiting, so this is done by dropping the value.
+        let _notifier = ReadyNotifier(&cache.write_op_ch_ready_event);
+
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
-
-        drop(current_task);
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
+        // The `current_task` lock is dropped first, and then the `_notifier`.
     }
 
     /// Tries to run the pending tasks if the lock is free. Returns `true` if there
@@ -136,19 +139,20 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
-        if let Some(mut current_task) = self.current_task.try_lock() {
+        if let Some(current_task) = self.current_task.try_lock() {
+            // If there are any async tasks waiting in `BaseCache::schedule_write_op`
+            // method for the write op channel, notify them when the `current_task`
+            // lock has been freed, even if we are cancelled while we are awaiting.
+            // The `current_task` is moved so that it will be dropped before the
+            // `_notifier`.
+            let _notifier = ReadyNotifier(&cache.write_op_ch_ready_event);
+            let mut current_task = current_task;
             self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
                 .await;
+            true
         } else {
-            return false;
+            false
         }
-
-        // The `current_task` lock should be free now.
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
-        true
     }
 
     async fn do_run_pending_tasks<K, V, S>(
@@ -207,6 +211,16 @@ impl Housekeeper {
     }
 }
 
+/// Notifies the async tasks waiting for the write op channel to have enough room
+/// when it is dropped.
+struct ReadyNotifier<'a>(&'a event_listener::Event);
+
+impl Drop for ReadyNotifier<'_> {
+    fn drop(&mut self) {
+        self.0.notify(usize::MAX);
+    }
+}
+
 #[cfg(test)]
 impl Housekeeper {
     pub(crate) fn disable_auto_run(&self) {
-- 
2.43.0


From f41f684f4988a1693c6de7716feb894585f6d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 18/26] fix: resume an interrupted maintenance task when it
 holds the key lock (future)

A maintenance task whose caller was cancelled while it was awaiting for the
eviction listener keeps the key lock. A task writing to that key waited for the
lock forever, because nobody resumed the maintenance task.
---
 src/future/base_cache.rs  | 30 +++++++++++++++++++++++++++++-
 src/future/cache.rs       |  2 +-
 src/future/housekeeper.rs | 32 ++++++++++++++++++++++++++++++++
 src/future/key_lock.rs    |  4 ++++
 4 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index aab3e9f..9a7fddc 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -484,6 +484,34 @@ where
         }
     }
 
+    /// Acquires the key lock.
+    pub(crate) async fn lock_key<'a>(&self, lock: &'a KeyLock<'_, K, S>) -> MutexGuard<'a, ()> {
+        use futures_util::future::{select, Either};
+
+        if let Some(guard) = lock.try_lock() {
+            return guard;
+        }
+
+        // Async Cancellation Safety: The lock might be held by the maintenance task,
+        // whose caller has been cancelled while the task is awaiting for the eviction
+        // listener. Nobody will unlock it until the task is resumed, so do it here.
+        // The event is sent when the caller has been cancelled.
+        loop {
+            let listener = self.write_op_ch_ready_event().listen();
+
+            if let Some(hk) = &self.housekeeper {
+                hk.resume_interrupted_task(&self.inner).await;
+            }
+
+            let acquire = lock.lock();
+            futures_util::pin_mut!(acquire);
+            match select(acquire, listener).await {
+                Either::Left((guard, _)) => return guard,
+                Either::Right(_) => continue,
+            }
+        }
+    }
+
     #[inline]
     pub(crate) async fn do_insert_with_hash(
         &self,
@@ -500,7 +528,7 @@ where
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
         let _klg = if let Some(lock) = &kl {
-            Some(lock.lock().await)
+            Some(self.lock_key(lock).await)
         } else {
             None
         };
diff --git a/src/future/cache.rs b/src/future/cache.rs
index ac546eb..b999da5 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1954,7 +1954,7 @@ where
             let arc_key = self.base.get_key_with_hash(key, hash)?;
             kl = self.base.maybe_key_lock(&arc_key);
             klg = if let Some(lock) = &kl {
-                Some(lock.lock().await)
+                Some(self.base.lock_key(lock).await)
             } else {
                 None
             };
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index aae1dfe..53289a1 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -26,6 +26,9 @@ use super::base_cache::Inner;
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
     current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
+    /// A flag to indicate if the `current_task` was interrupted because its caller
+    /// had been cancelled.
+    is_task_interrupted: AtomicBool,
     run_after: AtomicInstant,
     /// A flag to indicate if the last call on `run_pending_tasks` method left some
     /// entries to evict.
@@ -70,6 +73,7 @@ impl Housekeeper {
 
         Self {
             current_task: Mutex::default(),
+            is_task_interrupted: AtomicBool::new(false),
             run_after: AtomicInstant::new(Self::sync_after(now)),
             more_entries_to_evict,
             maintenance_task_timeout,
@@ -155,6 +159,19 @@ impl Housekeeper {
         }
     }
 
+    /// Resumes the maintenance task if it was interrupted because its caller had been
+    /// cancelled.
+    pub(crate) async fn resume_interrupted_task<K, V, S>(&self, cache: &Arc<Inner<K, V, S>>)
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Clone + Send + Sync + 'static,
+    {
+        if self.is_task_interrupted.load(Ordering::Acquire) {
+            self.try_run_pending_tasks(cache).await;
+        }
+    }
+
     async fn do_run_pending_tasks<K, V, S>(
         &self,
         cache: Arc<Inner<K, V, S>>,
@@ -166,6 +183,20 @@ impl Housekeeper {
     {
         use futures_util::FutureExt;
 
+        // Sets the `is_task_interrupted` flag if we are cancelled.
+        struct InterruptGuard<'a>(Option<&'a AtomicBool>);
+
+        impl Drop for InterruptGuard<'_> {
+            fn drop(&mut self) {
+                if let Some(flag) = self.0 {
+                    flag.store(true, Ordering::Release);
+                }
+            }
+        }
+
+        self.is_task_interrupted.store(false, Ordering::Release);
+        let mut interrupt_guard = InterruptGuard(Some(&self.is_task_interrupted));
+
         let now = cache.current_time();
         let more_to_evict;
         // Async Cancellation Safety: Our maintenance task is cancellable as we save
@@ -197,6 +228,7 @@ impl Housekeeper {
 
         // If we are here, it means that the maintenance task has been completed.
         // We can remove it from the lock.
+        interrupt_guard.0 = None;
         *current_task = None;
         self.run_after.set_instant(Self::sync_after(now));
         self.set_more_entries_to_evict(more_to_evict);
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 73d5041..c164e3b 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -83,6 +83,10 @@ where
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         self.lock.lock().await
     }
+
+    pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, ()>> {
+        self.lock.try_lock()
+    }
 }
 
 pub(crate) struct KeyLockMap<K, S> {
-- 
2.43.0


From 0beb68bbb302e66bfa6b8cf971b38c7d9950145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 19/26] fix: remove the waiter when a condition or weigher
 panics (sync)

---
 src/sync/value_initializer.rs | 138 +++++++++++++++++++++++++---------
 1 file changed, 101 insertions(+), 37 deletions(-)

diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 11f573b..ed9d426 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -1,4 +1,4 @@
-use parking_lot::RwLock;
+use parking_lot::{RwLock, RwLockWriteGuard};
 use std::{
     any::{Any, TypeId},
     fmt,
@@ -39,6 +39,67 @@ impl<V> fmt::Debug for WaiterValue<V> {
 }
 
 type Waiter<V> = MiniArc<RwLock<WaiterValue<V>>>;
+type WaiterMap<K, V, S> = crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>;
+
+/// Removes our waiter from the map when a panic unwinds the method that inserted it,
+/// e.g. a panic in the `replace_if` closure or in the user-supplied weigher.
+struct WaiterGuard<'a, K, V, S>
+// NOTE: We usually do not attach trait bounds to here at the struct definition, but
+// the Drop trait requires these bounds here.
+where
+    K: Hash + Eq,
+    V: Clone,
+    S: BuildHasher,
+{
+    w_key: Option<(Arc<K>, TypeId)>,
+    w_hash: u64,
+    waiters: &'a WaiterMap<K, V, S>,
+    write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+}
+
+impl<'a, K, V, S> WaiterGuard<'a, K, V, S>
+where
+    K: Hash + Eq,
+    V: Clone,
+    S: BuildHasher,
+{
+    fn new(
+        w_key: (Arc<K>, TypeId),
+        w_hash: u64,
+        waiters: &'a WaiterMap<K, V, S>,
+        write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+    ) -> Self {
+        Self {
+            w_key: Some(w_key),
+            w_hash,
+            waiters,
+            write_lock,
+        }
+    }
+
+    fn set_waiter_value(mut self, v: WaiterValue<V>) {
+        *self.write_lock = v;
+        if let Some(w_key) = self.w_key.take() {
+            remove_waiter(self.waiters, w_key, self.w_hash);
+        }
+    }
+}
+
+impl<K, V, S> Drop for WaiterGuard<'_, K, V, S>
+where
+    K: Hash + Eq,
+    V: Clone,
+    S: BuildHasher,
+{
+    fn drop(&mut self) {
+        if let Some(w_key) = self.w_key.take() {
+            // Value is not set. This means the thread is panicking. Remove our
+            // waiter so that others can retry.
+            *self.write_lock = WaiterValue::InitClosurePanicked;
+            remove_waiter(self.waiters, w_key, self.w_hash);
+        }
+    }
+}
 
 pub(crate) enum InitResult<V, E> {
     Initialized(V),
@@ -51,7 +112,7 @@ pub(crate) struct ValueInitializer<K, V, S> {
     // try_get_with method. We use the type ID as a part of the key to ensure that
     // we can always downcast the trait object ErrorObject (in Waiter<V>) into
     // its concrete type.
-    waiters: crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>,
+    waiters: WaiterMap<K, V, S>,
 }
 
 impl<K, V, S> ValueInitializer<K, V, S>
@@ -97,7 +158,7 @@ where
         let (w_key, w_hash) = self.waiter_key_hash(key, type_id);
 
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -133,12 +194,15 @@ where
 
         // Our waiter was inserted.
 
+        // Create a guard. This will ensure to remove our waiter when a panic unwinds
+        // this method.
+        let waiter_guard = WaiterGuard::new(w_key, w_hash, &self.waiters, lock);
+
         // Check if the value has already been inserted by other thread.
         if let Some(value) = get() {
             // Yes. Set the waiter value, remove our waiter, and return
             // the existing value.
-            *lock = WaiterValue::Ready(Ok(value.clone()));
-            self.remove_waiter(w_key, w_hash);
+            waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
             return InitResult::ReadExisting(value);
         }
 
@@ -147,27 +211,22 @@ where
         // evaluate the closure again.
         match catch_unwind(AssertUnwindSafe(init)) {
             // Evaluated.
-            Ok(value) => {
-                let init_res = match post_init(value) {
-                    Ok(value) => {
-                        insert(value.clone());
-                        *lock = WaiterValue::Ready(Ok(value.clone()));
-                        InitResult::Initialized(value)
-                    }
-                    Err(e) => {
-                        let err: ErrorObject = Arc::new(e);
-                        *lock = WaiterValue::Ready(Err(Arc::clone(&err)));
-                        InitResult::InitErr(err.downcast().unwrap())
-                    }
-                };
-                self.remove_waiter(w_key, w_hash);
-                init_res
-            }
+            Ok(value) => match post_init(value) {
+                Ok(value) => {
+                    insert(value.clone());
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
+                    InitResult::Initialized(value)
+                }
+                Err(e) => {
+                    let err: ErrorObject = Arc::new(e);
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Err(Arc::clone(&err))));
+                    InitResult::InitErr(err.downcast().unwrap())
+                }
+            },
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         }
@@ -197,7 +256,7 @@ where
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
         // NOTE: We have to acquire a write lock before `try_insert_waiter`,
         // so that any concurrent attempt will get our lock and wait on it.
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -224,6 +283,10 @@ where
 
         // Our waiter was inserted.
 
+        // Create a guard. This will ensure to remove our waiter when a panic unwinds
+        // this method.
+        let waiter_guard = WaiterGuard::new(w_key, w_hash, &self.waiters, lock);
+
         // Get the current value.
         let ignore_if = None as Option<&mut fn(&V) -> bool>;
         let maybe_entry = cache
@@ -240,15 +303,11 @@ where
         // evaluate the closure again.
         let output = match catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
             // Evaluated.
-            Ok(output) => {
-                *lock = WaiterValue::ReadyNone;
-                output
-            }
+            Ok(output) => output,
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         };
@@ -256,7 +315,7 @@ where
         let op = match post_init(output) {
             Ok(op) => op,
             Err(e) => {
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
                 return Err(e);
             }
         };
@@ -296,7 +355,7 @@ where
                 }
             }
         };
-        self.remove_waiter(w_key, w_hash);
+        waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
         result
 
         // The lock will be unlocked here.
@@ -358,11 +417,6 @@ where
         TypeId::of::<E>()
     }
 
-    #[inline]
-    fn remove_waiter(&self, w_key: (Arc<K>, TypeId), w_hash: u64) {
-        self.waiters.remove(w_hash, |k| k == &w_key);
-    }
-
     #[inline]
     fn try_insert_waiter(
         &self,
@@ -382,6 +436,16 @@ where
     }
 }
 
+#[inline]
+fn remove_waiter<K, V, S>(waiters: &WaiterMap<K, V, S>, w_key: (Arc<K>, TypeId), w_hash: u64)
+where
+    K: Hash + Eq,
+    V: Clone,
+    S: BuildHasher,
+{
+    waiters.remove(w_hash, |k| k == &w_key);
+}
+
 #[cfg(test)]
 impl<K, V, S> ValueInitializer<K, V, S> {
     pub(crate) fn waiter_count(&self) -> usize {
-- 
2.43.0


From 947fe2fde50bb4501e0694a60728a64976b574fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:41 +0000
Subject: [PATCH 20/26] fix: do not evict an entry updated while being selected
 as the LRU victim

---
 src/future/base_cache.rs | 4 +++-
 src/sync/base_cache.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 9a7fddc..879e9ac 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2555,8 +2555,10 @@ where
                 hash,
                 |k| k == &key,
                 |_, v| {
+                    // Check `is_dirty` again as the entry may have been updated after
+                    // it was peeked (but before its `last_accessed` was read).
                     if let Some(la) = v.last_accessed() {
-                        la == ts
+                        la == ts && !v.is_dirty()
                     } else {
                         false
                     }
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 31a7f35..7d9697a 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2306,8 +2306,10 @@ where
                 hash,
                 |k| k == &key,
                 |_, v| {
+                    // Check `is_dirty` again as the entry may have been updated after
+                    // it was peeked (but before its `last_accessed` was read).
                     if let Some(la) = v.last_accessed() {
-                        la == ts
+                        la == ts && !v.is_dirty()
                     } else {
                         false
                     }
-- 
2.43.0


From 7bcb2acc0594ad560e52bc6c3221634f5f61b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:27 +0000
Subject: [PATCH 21/26] fix: do not skip an entry between two batches of a
 predicate scan

---
 src/common/deque.rs      | 6 ++++++
 src/future/base_cache.rs | 6 ++++--
 src/sync/base_cache.rs   | 6 ++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/deque.rs b/src/common/deque.rs
index 0f25cfb..02247fe 100644
--- a/src/common/deque.rs
+++ b/src/common/deque.rs
@@ -276,6 +276,12 @@ impl<T> Deque<T> {
         std::mem::drop(Box::from_raw(node.as_ptr()));
     }
 
+    /// Returns `true` if the cursor points to a node, which the iterator will yield
+    /// next.
+    pub(crate) fn is_cursor_at_node(&self) -> bool {
+        matches!(self.cursor, Some(DeqCursor::Node(_)))
+    }
+
     pub(crate) fn reset_cursor(&mut self) {
         self.cursor = None;
     }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 879e9ac..40e3428 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2447,7 +2447,7 @@ where
         let mut len = 0;
         let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2464,7 +2464,9 @@ where
                 }
             }
 
-            has_next = iter.peek().is_some();
+            // Do not peek through the iterator, as it would move the cursor over an
+            // entry that is not in this batch.
+            has_next = deqs.write_order.is_cursor_at_node();
         }
 
         if len == 0 {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 7d9697a..6d040b7 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2203,7 +2203,7 @@ where
         let mut len = 0;
         let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2220,7 +2220,9 @@ where
                 }
             }
 
-            has_next = iter.peek().is_some();
+            // Do not peek through the iterator, as it would move the cursor over an
+            // entry that is not in this batch.
+            has_next = deqs.write_order.is_cursor_at_node();
         }
 
         if len == 0 {
-- 
2.43.0


From 6978aeb079d84709b6ab4aa4da0e2d2b327060ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 22/26] fix: do not schedule a timer into a bucket that has
 already been processed

---
 src/common/timer_wheel.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/timer_wheel.rs b/src/common/timer_wheel.rs
index 54d466a..e025337 100644
--- a/src/common/timer_wheel.rs
+++ b/src/common/timer_wheel.rs
@@ -438,7 +438,10 @@ impl<K> TimerWheel<K> {
     /// should be added to.
     fn bucket_indices(&self, time: Instant) -> (usize, usize) {
         let duration_nanos = self.duration_nanos_since_last_advanced(time);
-        let time_nanos = self.time_nanos(time);
+        // If `time` is earlier than `self.current`, use `self.current`. The bucket for
+        // the earlier time has already been processed and will not be visited again
+        // until the wheel makes a full turn.
+        let time_nanos = self.time_nanos(time.max(self.current));
         for level in 0..=NUM_LEVELS {
             if duration_nanos < SPANS[level + 1] {
                 let ticks = time_nanos >> SHIFT[level];
-- 
2.43.0


From 412c282d55b6dc6dc58d5dfd41a1ca2835494643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:18 +0000
Subject: [PATCH 23/26] fix: do not expire an entry by the deadline of the
 value it replaces

---
 src/future/base_cache.rs | 4 +++-
 src/sync/base_cache.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 40e3428..3b2a6cf 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2131,7 +2131,9 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                // Check `is_dirty` again. The entry may have been updated after the
+                // first check, with its new expiration time not stored yet.
+                |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now) && !v.is_dirty(),
             );
 
             if let Some(entry) = maybe_entry {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 6d040b7..ed5681a 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1911,7 +1911,9 @@ where
                 let maybe_entry = self.cache.remove_if(
                     hash,
                     |k| k == key,
-                    |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                    // Check `is_dirty` again. The entry may have been updated after the
+                    // first check, with its new expiration time not stored yet.
+                    |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now) && !v.is_dirty(),
                 );
 
                 if let Some(entry) = maybe_entry {
-- 
2.43.0


From 2b52e29e7e5c414d9996777ece509e207da6fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 24/26] fix: do not clear the expiration time of an entry by
 reading it

---
 src/future/base_cache.rs | 10 ++++++++--
 src/sync/base_cache.rs   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 3b2a6cf..4c7cf55 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -338,6 +338,7 @@ where
                             self.inner.expiration_policy.time_to_idle(),
                             now,
                             self.inner.clock(),
+                            false,
                         );
                     }
 
@@ -613,6 +614,7 @@ where
                 self.inner.expiration_policy.time_to_idle(),
                 ts,
                 self.inner.clock(),
+                true,
             );
         }
 
@@ -844,6 +846,7 @@ impl<K, V, S> BaseCache<K, V, S> {
             .set_expiration_time(expiration_time);
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn expire_after_read_or_update(
         expiry: impl FnOnce(&K, &V, StdInstant, Option<Duration>) -> Option<Duration>,
         key: &K,
@@ -852,6 +855,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         tti: Option<Duration>,
         ts: Instant,
         clock: &Clock,
+        is_update: bool,
     ) -> bool {
         let current_time = clock.to_std_instant(ts);
         let ei = &value_entry.entry_info();
@@ -881,8 +885,10 @@ impl<K, V, S> BaseCache<K, V, S> {
                 .set_expiration_time(expiration_time);
             // The `expiration_time` has changed from `None` to `Some` or vice versa.
             true
-        } else if duration.is_none() && current_per_entry_exp_time.is_some() {
-            // Clear the expired per-entry expiration time.
+        } else if is_update && duration.is_none() && current_per_entry_exp_time.is_some() {
+            // Clear the expired per-entry expiration time. (Only for an update. When
+            // reading, the entry was not expired at the lookup, so another thread has
+            // set the time since then, and it must not be lost)
             value_entry.entry_info().set_expiration_time(None);
             true
         } else {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ed5681a..375dbf6 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -362,6 +362,7 @@ where
                     self.inner.expiration_policy.time_to_idle(),
                     now,
                     self.inner.clock(),
+                    false,
                 );
             }
 
@@ -580,6 +581,7 @@ where
                 self.inner.expiration_policy.time_to_idle(),
                 ts,
                 self.inner.clock(),
+                true,
             );
         }
 
@@ -667,6 +669,7 @@ impl<K, V, S> BaseCache<K, V, S> {
             .set_expiration_time(expiration_time);
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn expire_after_read_or_update(
         expiry: impl FnOnce(&K, &V, StdInstant, Option<Duration>) -> Option<Duration>,
         key: &K,
@@ -675,6 +678,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         tti: Option<Duration>,
         ts: Instant,
         clock: &Clock,
+        is_update: bool,
     ) -> bool {
         let current_time = clock.to_std_instant(ts);
         let ei = &value_entry.entry_info();
@@ -704,8 +708,10 @@ impl<K, V, S> BaseCache<K, V, S> {
                 .set_expiration_time(expiration_time);
             // The `expiration_time` has changed from `None` to `Some` or vice versa.
             true
-        } else if duration.is_none() && current_per_entry_exp_time.is_some() {
-            // Clear the expired per-entry expiration time.
+        } else if is_update && duration.is_none() && current_per_entry_exp_time.is_some() {
+            // Clear the expired per-entry expiration time. (Only for an update. When
+            // reading, the entry was not expired at the lookup, so another thread has
+            // set the time since then, and it must not be lost)
             value_entry.entry_info().set_expiration_time(None);
             true
         } else {
-- 
2.43.0


From abe3b36172c73ded4008fb8a43c0956d00ec1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 25/26] fix: decide whether a removed value was alive before
 removing it

---
 src/cht/segment.rs       | 11 -----------
 src/future/base_cache.rs | 39 ++++++++++++++++++++++++++++++++-------
 src/future/cache.rs      |  8 +++-----
 src/sync/base_cache.rs   | 39 ++++++++++++++++++++++++++++++++-------
 src/sync/cache.rs        |  8 +++-----
 5 files changed, 70 insertions(+), 35 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 8a0bbec..bf70e0e 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -334,17 +334,6 @@ impl<K: Hash + Eq, V, S: BuildHasher> HashMap<K, V, S> {
         self.remove_entry_if_and(hash, eq, |_, _| true, |_, v| v.clone())
     }
 
-    /// Removes a key from the map, returning a clone of the key-value pair
-    /// previously corresponding to the key.
-    #[inline]
-    pub(crate) fn remove_entry(&self, hash: u64, eq: impl FnMut(&K) -> bool) -> Option<(K, V)>
-    where
-        K: Clone,
-        V: Clone,
-    {
-        self.remove_entry_if_and(hash, eq, |_, _| true, |k, v| (k.clone(), v.clone()))
-    }
-
     /// Removes a key from the map if a condition is met, returning a clone of
     /// the value previously corresponding to the key.
     ///
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 4c7cf55..32c0c0e 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -384,12 +384,26 @@ where
             .get_key_value_and(key, hash, |k, _entry| Arc::clone(k))
     }
 
-    #[inline]
-    pub(crate) fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    /// Removes the entry for the key. If `check_live` is `true`, returns also whether
+    /// the entry was neither expired nor invalidated. That is decided before the
+    /// removal takes effect, so that an entry invalidated after its removal is
+    /// reported as live.
+    pub(crate) fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        check_live: bool,
+    ) -> Option<(KvEntry<K, V>, bool)>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.inner.remove_entry(key, hash)
+        let now = self.current_time();
+        let mut is_live = false;
+        self.inner
+            .remove_entry(key, hash, |k, entry| {
+                is_live = check_live && self.is_live_entry(k, entry, now);
+            })
+            .map(|kv| (kv, is_live))
     }
 
     #[inline]
@@ -1291,13 +1305,24 @@ where
     }
 
     #[inline]
-    fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        mut before_remove: impl FnMut(&Arc<K>, &MiniArc<ValueEntry<K, V>>),
+    ) -> Option<KvEntry<K, V>>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.cache
-            .remove_entry(hash, |k| key.equivalent(k as &K))
-            .map(|(key, entry)| KvEntry::new(key, entry))
+        self.cache.remove_entry_if_and(
+            hash,
+            |k| key.equivalent(k as &K),
+            |k, entry| {
+                before_remove(k, entry);
+                true
+            },
+            |k, entry| KvEntry::new(Arc::clone(k), MiniArc::clone(entry)),
+        )
     }
 
     fn keys(&self, cht_segment: usize) -> Option<Vec<Arc<K>>> {
diff --git a/src/future/cache.rs b/src/future/cache.rs
index b999da5..5e3463d 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1960,14 +1960,12 @@ where
             };
         }
 
-        match self.base.remove_entry(key, hash) {
+        match self.base.remove_entry(key, hash, need_value) {
             None => None,
-            Some(kv) => {
+            // An expired or invalidated value is discarded but never returned.
+            Some((kv, need_value)) => {
                 let now = self.base.current_time();
 
-                // An expired or invalidated value is discarded but never returned.
-                let need_value = need_value && self.base.is_live_entry(&kv.key, &kv.entry, now);
-
                 let maybe_v = if need_value {
                     Some(kv.entry.value.clone())
                 } else {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 375dbf6..d3e0826 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -389,12 +389,26 @@ where
             .get_key_value_and(key, hash, |k, _entry| Arc::clone(k))
     }
 
-    #[inline]
-    pub(crate) fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    /// Removes the entry for the key. If `check_live` is `true`, returns also whether
+    /// the entry was neither expired nor invalidated. That is decided before the
+    /// removal takes effect, so that an entry invalidated after its removal is
+    /// reported as live.
+    pub(crate) fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        check_live: bool,
+    ) -> Option<(KvEntry<K, V>, bool)>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.inner.remove_entry(key, hash)
+        let now = self.current_time();
+        let mut is_live = false;
+        self.inner
+            .remove_entry(key, hash, |k, entry| {
+                is_live = check_live && self.is_live_entry(k, entry, now);
+            })
+            .map(|kv| (kv, is_live))
     }
 
     #[inline]
@@ -1100,13 +1114,24 @@ where
     }
 
     #[inline]
-    fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        mut before_remove: impl FnMut(&Arc<K>, &MiniArc<ValueEntry<K, V>>),
+    ) -> Option<KvEntry<K, V>>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.cache
-            .remove_entry(hash, |k| key.equivalent(k as &K))
-            .map(|(key, entry)| KvEntry::new(key, entry))
+        self.cache.remove_entry_if_and(
+            hash,
+            |k| key.equivalent(k as &K),
+            |k, entry| {
+                before_remove(k, entry);
+                true
+            },
+            |k, entry| KvEntry::new(Arc::clone(k), MiniArc::clone(entry)),
+        )
     }
 
     fn keys(&self, cht_segment: usize) -> Option<Vec<Arc<K>>> {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 3f488e1..8e7f409 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1603,14 +1603,12 @@ where
             klg = kl.as_ref().map(|kl| kl.lock());
         }
 
-        match self.base.remove_entry(key, hash) {
+        match self.base.remove_entry(key, hash, need_value) {
             None => None,
-            Some(kv) => {
+            // An expired or invalidated value is discarded but never returned.
+            Some((kv, need_value)) => {
                 let now = self.base.current_time();
 
-                // An expired or invalidated value is discarded but never returned.
-                let need_value = need_value && self.base.is_live_entry(&kv.key, &kv.entry, now);
-
                 let info = kv.entry.entry_info();
                 let entry_gen = info.incr_entry_gen();
 
-- 
2.43.0


From bf4e4f5076d58fd95dbe675d864cf97fb5bed325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:21 +0000
Subject: [PATCH 26/26] fix: report the cause that applies to the value that
 was removed

---
 src/future/base_cache.rs | 32 ++++++++++++++++++++++++++++----
 src/sync/base_cache.rs   | 32 ++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 32c0c0e..f74660b 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2244,7 +2244,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2292,7 +2292,19 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    let Some(ts) = v.last_accessed() else {
+                        return false;
+                    };
+                    // The value may have been replaced after the check above, so
+                    // the cause has to be that of this value.
+                    cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
+                        (true, _) => RemovalCause::Expired,
+                        (false, true) => RemovalCause::Explicit,
+                        (false, false) => return false,
+                    };
+                    true
+                },
             );
 
             if let Some(entry) = maybe_entry {
@@ -2390,7 +2402,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2433,7 +2445,19 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_wo(ttl, va, v, now),
+                |_, v| {
+                    let Some(ts) = v.last_modified() else {
+                        return false;
+                    };
+                    // The value may have been replaced after the check above, so
+                    // the cause has to be that of this value.
+                    cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
+                        (true, _) => RemovalCause::Expired,
+                        (false, true) => RemovalCause::Explicit,
+                        (false, false) => return false,
+                    };
+                    true
+                },
             );
 
             if let Some(entry) = maybe_entry {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index d3e0826..68e841f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2021,7 +2021,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2064,7 +2064,19 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    let Some(ts) = v.last_accessed() else {
+                        return false;
+                    };
+                    // The value may have been replaced after the check above, so
+                    // the cause has to be that of this value.
+                    cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
+                        (true, _) => RemovalCause::Expired,
+                        (false, true) => RemovalCause::Explicit,
+                        (false, false) => return false,
+                    };
+                    true
+                },
             );
 
             if let Some(entry) = maybe_entry {
@@ -2158,7 +2170,7 @@ where
                 )
             });
 
-            let (key, hash, cause) = match maybe_key_hash_ts {
+            let (key, hash, mut cause) = match maybe_key_hash_ts {
                 Some((key, hash, false, Some(ts))) => {
                     let cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
                         (true, _) => RemovalCause::Expired,
@@ -2191,7 +2203,19 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_wo(ttl, va, v, now),
+                |_, v| {
+                    let Some(ts) = v.last_modified() else {
+                        return false;
+                    };
+                    // The value may have been replaced after the check above, so
+                    // the cause has to be that of this value.
+                    cause = match is_entry_expired_wo_or_invalid(ttl, va, ts, now) {
+                        (true, _) => RemovalCause::Expired,
+                        (false, true) => RemovalCause::Explicit,
+                        (false, false) => return false,
+                    };
+                    true
+                },
             );
 
             if let Some(entry) = maybe_entry {
-- 
2.43.0

