From 7c198355600fefd883b66d8815879cda1cbb607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 01/11] fix: CursorList::seek_val only moves cursors at the
 current key

Seeking moved the value cursors of batches at later keys, whose smaller values were then
skipped once those keys became current, and indexed out of bounds in exhausted batches.
---
 differential-dataflow/src/trace/cursor/cursor_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/trace/cursor/cursor_list.rs b/differential-dataflow/src/trace/cursor/cursor_list.rs
index 4f39fcf..a1c6551 100644
--- a/differential-dataflow/src/trace/cursor/cursor_list.rs
+++ b/differential-dataflow/src/trace/cursor/cursor_list.rs
@@ -183,8 +183,9 @@ impl<C: Cursor> Cursor for CursorList<C> {
     }
     #[inline]
     fn seek_val(&mut self, storage: &Vec<C::Storage>, val: Self::Val<'_>) {
-        for (cursor, storage) in self.cursors.iter_mut().zip(storage) {
-            cursor.seek_val(storage, val);
+        // Only cursors at the current key should move; others would skip values of later keys.
+        for &index in self.min_key.iter() {
+            self.cursors[index].seek_val(&storage[index], val);
         }
         self.minimize_vals(storage);
     }
-- 
2.43.0


From a72a0fb3817ac416e89b60d713c22f58bd65221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 02/11] fix: threshold_total and distinct_total produce nothing
 for records whose count is zero

---
 differential-dataflow/src/operators/threshold.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/operators/threshold.rs b/differential-dataflow/src/operators/threshold.rs
index 2909a0c..7b3369a 100644
--- a/differential-dataflow/src/operators/threshold.rs
+++ b/differential-dataflow/src/operators/threshold.rs
@@ -41,8 +41,9 @@ pub trait ThresholdTotal<'scope, T: Timestamp + TotalOrder + Lattice, K: Exchang
     /// ```
     fn threshold_total<R2: Abelian+'static, F: FnMut(&K,&R)->R2+'static>(self, mut thresh: F) -> VecCollection<'scope, T, K, R2> {
         self.threshold_semigroup(move |key, new, old| {
-            let mut new = thresh(key, new);
-            if let Some(old) = old {
+            // A record whose count is zero is absent, and has no output.
+            let mut new = if new.is_zero() { R2::zero() } else { thresh(key, new) };
+            if let Some(old) = old.filter(|old| !old.is_zero()) {
                 let mut add = thresh(key, old);
                 add.negate();
                 new.plus_equals(&add);
-- 
2.43.0


From 8e81bdea0986d8f35e95699f51911ad5cc54e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 03/11] fix: PointStamp equality with slices compares
 coordinates absent from one side

---
 differential-dataflow/src/dynamic/pointstamp.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/differential-dataflow/src/dynamic/pointstamp.rs b/differential-dataflow/src/dynamic/pointstamp.rs
index b256ac9..ad234e6 100644
--- a/differential-dataflow/src/dynamic/pointstamp.rs
+++ b/differential-dataflow/src/dynamic/pointstamp.rs
@@ -28,18 +28,15 @@ pub struct PointStamp<T> {
 
 impl<T: Timestamp> PartialEq<[T]> for PointStamp<T> {
     fn eq(&self, other: &[T]) -> bool {
-        self.vector.iter()
-            .zip(other.iter().chain(std::iter::repeat(&T::minimum())))
-            .all(|(t1, t2)| t1.eq(t2))
+        let min_len = std::cmp::min(self.vector.len(), other.len());
+        self.vector[..min_len] == other[..min_len]
+            // Coordinates present in only one input must equal the absent `T::minimum()`.
+            && self.vector[min_len..].iter().chain(&other[min_len..]).all(|t| t == &T::minimum())
     }
 }
 
 impl<T: Timestamp> PartialEq<PointStamp<T>> for [T] {
-    fn eq(&self, other: &PointStamp<T>) -> bool {
-        self.iter()
-            .zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))
-            .all(|(t1, t2)| t1.eq(t2))
-    }
+    fn eq(&self, other: &PointStamp<T>) -> bool { other.eq(self) }
 }
 
 impl<T: Timestamp> PartialOrder<[T]> for PointStamp<T> {
-- 
2.43.0


From b6bf3184901238bba1c056c44cc461f41197201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 04/11] fix: SliceContainer::clone_onto accepts slices of other
 lengths than its target

---
 differential-dataflow/src/trace/implementations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differential-dataflow/src/trace/implementations/mod.rs b/differential-dataflow/src/trace/implementations/mod.rs
index 9b69cb1..6e7e7d4 100644
--- a/differential-dataflow/src/trace/implementations/mod.rs
+++ b/differential-dataflow/src/trace/implementations/mod.rs
@@ -543,7 +543,7 @@ pub mod containers {
         type ReadItem<'a> = &'a [B];
 
         #[inline(always)] fn into_owned<'a>(item: Self::ReadItem<'a>) -> Self::Owned { item.to_vec() }
-        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { other.clone_from_slice(item); }
+        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { item.clone_into(other); }
 
         fn reborrow<'b, 'a: 'b>(item: Self::ReadItem<'a>) -> Self::ReadItem<'b> { item }
 
-- 
2.43.0


From 68fa1d1ef38f2199a3574107de65ee0b90c9a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 05/11] fix: the columnar exchange accounts for records whose
 updates cancel

---
 differential-dataflow/src/columnar/collection/exchange.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/differential-dataflow/src/columnar/collection/exchange.rs b/differential-dataflow/src/columnar/collection/exchange.rs
index ff71b55..41239eb 100644
--- a/differential-dataflow/src/columnar/collection/exchange.rs
+++ b/differential-dataflow/src/columnar/collection/exchange.rs
@@ -69,6 +69,12 @@ impl<U: Update, H: for<'a> FnMut(columnar::Ref<'a, U::Key>)->u64> Distributor<Re
         let total_records = container.records;
         let non_empty: usize = outputs.iter().filter(|o| !o.keys.values.is_empty()).count();
         let mut first_records = total_records.saturating_sub(non_empty.saturating_sub(1));
+        // Records that consolidated away leave nothing to route, but must still be
+        // delivered somewhere: progress tracking expects them to be consumed.
+        if non_empty == 0 && total_records > 0 {
+            let mut recorded = RecordedUpdates { records: total_records, ..Default::default() };
+            Message::push_at(&mut recorded, time.clone(), &mut pushers[0]);
+        }
         for (pusher, output) in pushers.iter_mut().zip(outputs) {
             if !output.keys.values.is_empty() {
                 let recorded = RecordedUpdates { updates: output.into(), records: first_records, consolidated: container.consolidated };
-- 
2.43.0


From e853acdc8f34dc106f1918b342fc3f706e266317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 06/11] hook: cfg(ddverif) shrinks chunk and batch size
 constants, so that their boundaries are within reach of the checks

---
 differential-dataflow/src/columnar/mod.rs         | 4 ++++
 differential-dataflow/src/columnar/trace/chunk.rs | 4 ++++
 differential-dataflow/src/lib.rs                  | 1 +
 differential-dataflow/src/trace/chunk/mod.rs      | 3 +++
 differential-dataflow/src/trace/chunk/vec.rs      | 4 ++++
 5 files changed, 16 insertions(+)

diff --git a/differential-dataflow/src/columnar/mod.rs b/differential-dataflow/src/columnar/mod.rs
index 49b439c..7073aa4 100644
--- a/differential-dataflow/src/columnar/mod.rs
+++ b/differential-dataflow/src/columnar/mod.rs
@@ -38,4 +38,8 @@ pub use updates::UpdatesTyped;
 
 /// Target size for update batches, in number of updates. The collection-side
 /// input builder and the trace-side `Chunker` aim to ship chunks within 1-2x this.
+#[cfg(not(ddverif))]
 pub const LINK_TARGET: usize = 64 * 1024;
+/// Small under verification, so that batch boundaries are within reach.
+#[cfg(ddverif)]
+pub const LINK_TARGET: usize = 2;
diff --git a/differential-dataflow/src/columnar/trace/chunk.rs b/differential-dataflow/src/columnar/trace/chunk.rs
index a8357ae..61d0311 100644
--- a/differential-dataflow/src/columnar/trace/chunk.rs
+++ b/differential-dataflow/src/columnar/trace/chunk.rs
@@ -56,7 +56,11 @@ use crate::trace::chunk::Chunk;
 ///
 /// Smaller than `crate::columnar::LINK_TARGET` so multi-chunk batches — and the
 /// straddle cursor — are exercised; the trie operations are happy at any size.
+#[cfg(not(ddverif))]
 const TARGET: usize = 8192;
+/// Small under verification, so that chunk boundaries are within reach.
+#[cfg(ddverif)]
+const TARGET: usize = 2;
 
 /// Resident bounds for a paged chunk: the first and last `(key, val, time)` as
 /// single-element columnar containers (so [`Chunk::bounds`] returns refs without
diff --git a/differential-dataflow/src/lib.rs b/differential-dataflow/src/lib.rs
index 81db82a..09bf170 100644
--- a/differential-dataflow/src/lib.rs
+++ b/differential-dataflow/src/lib.rs
@@ -72,6 +72,7 @@
 
 #![forbid(missing_docs)]
 #![allow(array_into_iter)]
+#![allow(unexpected_cfgs)] // `ddverif` shrinks size constants for the verification harness.
 
 
 use std::fmt::Debug;
diff --git a/differential-dataflow/src/trace/chunk/mod.rs b/differential-dataflow/src/trace/chunk/mod.rs
index 93a4d28..89dd0d3 100644
--- a/differential-dataflow/src/trace/chunk/mod.rs
+++ b/differential-dataflow/src/trace/chunk/mod.rs
@@ -623,7 +623,10 @@ where
         while *fuel > 0 {
             // Refill each input deque up to a burst of source chunks (clones).
             // The constant trades away fuel precision for overhead amortization.
+            #[cfg(not(ddverif))]
             const BURST: usize = 8;
+            #[cfg(ddverif)]
+            const BURST: usize = 2;
             while self.in1.len() < BURST && self.idx1 < source1.chunks.len() {
                 self.in1.push_back(source1.chunks[self.idx1].clone());
                 self.idx1 += 1;
diff --git a/differential-dataflow/src/trace/chunk/vec.rs b/differential-dataflow/src/trace/chunk/vec.rs
index 1a6b9af..5c7afe8 100644
--- a/differential-dataflow/src/trace/chunk/vec.rs
+++ b/differential-dataflow/src/trace/chunk/vec.rs
@@ -32,7 +32,11 @@ use crate::trace::implementations::{BatchContainer, Layout, Vector, WithLayout};
 use super::Chunk;
 
 /// The chunk size: the [`Chunk::TARGET`] value, also used for buffer sizing.
+#[cfg(not(ddverif))]
 const TARGET: usize = 8192;
+/// Small under verification, so that chunk boundaries are within reach.
+#[cfg(ddverif)]
+const TARGET: usize = 2;
 
 /// A sorted, consolidated run of `((key, val), time, diff)`, shared via `Rc`.
 pub struct VecChunk<K, V, T, R>(Rc<Vec<((K, V), T, R)>>);
-- 
2.43.0


From ff05dbdaf2a91df83657bab630fd2837447d28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 07/11] fix: half_join2 promotes stuck records after yielding

A blob with ready records does not promote its stuck records. If the
operator yields, the arrangement's frontier advances, and the ready records
are then drained, nothing scheduled the operator again: the stuck records
were never matched and their capabilities never released.
---
 dogsdogsdogs/src/operators/half_join2.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dogsdogsdogs/src/operators/half_join2.rs b/dogsdogsdogs/src/operators/half_join2.rs
index e9deb66..c327214 100644
--- a/dogsdogsdogs/src/operators/half_join2.rs
+++ b/dogsdogsdogs/src/operators/half_join2.rs
@@ -176,6 +176,8 @@ where
 
             // Local variables to track if and when we should exit early.
             let mut yielded = false;
+            // Set if stuck records can be promoted once the operator is next scheduled.
+            let mut promote = false;
             let timer = std::time::Instant::now();
             let mut work = 0;
 
@@ -321,6 +323,8 @@ where
                     } else  {
                         blob.lower.update_iter(removals.drain());
                         blob.caps.downgrade(&blob.lower.frontier());
+                        // Records may have become eligible while ready elements awaited processing.
+                        promote |= blob.stuck_count == blob.data.len() && eligible(&blob.data[0].0);
                     }
                 }
 
@@ -328,8 +332,8 @@ where
                 blobs.retain(|blob| !blob.data.is_empty());
             }
 
-            // Re-activate if we have blobs with ready elements to process.
-            if blobs.iter().any(|b| b.data.len() > b.stuck_count) {
+            // Re-activate if we have blobs with ready elements to process, or with records to promote.
+            if promote || blobs.iter().any(|b| b.data.len() > b.stuck_count) {
                 activator.activate();
             }
 
-- 
2.43.0


From 69217659fcc8948d8abbd5393b68ea5fb25f395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 08/11] fix: capture sink sends progress statements after a
 retry

The queue of progress statements was only drained when the frontier advanced,
so a statement the writer declined was not retried, and the last one was
never written.
---
 differential-dataflow/src/capture.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index ba1522a..5429558 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -698,16 +698,17 @@ pub mod sink {
 
                             // Advance our frontier to track our progress utterance.
                             frontier = frontiers[0].frontier().to_owned();
+                        }
 
-                            while let Some(message) = send_queue.front() {
-                                if let Some(duration) = sink.poll(message) {
-                                    // Reschedule after `duration` and then bail.
-                                    reactivator.activate_after(duration);
-                                    // Signal that work remains to be done.
-                                    return true;
-                                } else {
-                                    send_queue.pop_front();
-                                }
+                        // Send queued messages, including any the sink declined earlier.
+                        while let Some(message) = send_queue.front() {
+                            if let Some(duration) = sink.poll(message) {
+                                // Reschedule after `duration` and then bail.
+                                reactivator.activate_after(duration);
+                                // Signal that work remains to be done.
+                                return true;
+                            } else {
+                                send_queue.pop_front();
                             }
                         }
                         // Signal incompleteness if messages remain to be sent.
-- 
2.43.0


From 32a04aa370625b24c6ebd44ea33b5e795893fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 09/11] fix: interpreter: fused linear operators respect the
 delays of those before them

---
 interactive/src/backend/vec.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/interactive/src/backend/vec.rs b/interactive/src/backend/vec.rs
index 2a5001c..24902d8 100644
--- a/interactive/src/backend/vec.rs
+++ b/interactive/src/backend/vec.rs
@@ -46,10 +46,13 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
     use timely::dataflow::operators::core::Map;
     c.inner.flat_map(move |((key, val), t_in, d_in)| {
         use timely::progress::Timestamp;
-        let iter_at_level: i64 = level
-            .checked_sub(1)
-            .and_then(|idx| t_in.inner.get(idx).copied())
-            .unwrap_or(0) as i64;
+        // Ops fused into one chain see the delays of the ops before them.
+        let iter_at_level = |t: &Time| -> i64 {
+            level
+                .checked_sub(1)
+                .and_then(|idx| t_in.join(t).inner.get(idx).copied())
+                .unwrap_or(0) as i64
+        };
         let mut results: smallvec::SmallVec<[((Row, Row), Time, Diff); 2]> = svec![((key, val), Time::minimum(), 1)];
         for op in &ops {
             let mut next = smallvec::SmallVec::new();
@@ -77,10 +80,11 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
                         let mut coords = smallvec::SmallVec::<[u64; 1]>::new();
                         for _ in 0..level.saturating_sub(1) { coords.push(0); }
                         coords.push(delay);
-                        next.push(((k, v), Product::new(0u64, PointStamp::new(coords)), d));
+                        next.push(((k, v), t.join(&Product::new(0u64, PointStamp::new(coords))), d));
                     },
                     LinearOp::LiftIter => {
-                        next.push(((k, append_iter(v, iter_at_level)), t, d));
+                        let iter = iter_at_level(&t);
+                        next.push(((k, append_iter(v, iter)), t, d));
                     },
                     LinearOp::FlatMap(list_term) => {
                         let elems = {
-- 
2.43.0


From 35aa87426ad71cc5bec7777b0c5f28df80e10473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:30 +0000
Subject: [PATCH 10/11] fix: explain: terms over whole rows and re-keyed rows
 see the user's fields

---
 interactive/src/explain/mod.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/interactive/src/explain/mod.rs b/interactive/src/explain/mod.rs
index 1c1bba3..7e954ae 100644
--- a/interactive/src/explain/mod.rs
+++ b/interactive/src/explain/mod.rs
@@ -502,7 +502,8 @@ impl Sb {
         // the source as the value.
         let src = self.concat(vec![side.witness.clone(), side.forward.clone()]);
         let rekeyed = self.project(src, Projection { key: tup(vec![var(0), var(1)]), val: var(1) });
-        let exploded = self.linear(rekeyed, vec![LinearOp::FlatMap(list_term.clone())]);
+        let list_term = map_rows(list_term, &|r| if r == 0 { f(0, 0) } else { tup(fidx(r, 0, v_in)) });
+        let exploded = self.linear(rekeyed, vec![LinearOp::FlatMap(list_term)]);
         let pair = self.project(exploded, Projection { key: tup(vec![f(0, 0), f(1, 0), f(1, 1)]), val: var(0) });
         // Re-key the demand by the same packed output; keep its chain ++ q.
         let dep_keyed = self.project(dep_y, Projection { key: tup(vec![var(0), f(1, 0), f(1, 1)]), val: tup(fidx(1, v_out, v_out + d + 1)) });
@@ -572,12 +573,38 @@ fn expand_value_fields(side: &Term, arities: &[usize]) -> Vec<Term> {
                 Term::Var(r) => out.extend(fidx(*r, 0, arities.get(*r).copied().unwrap_or(0))),
                 _ => out.push(field.clone()),
             },
-            other => out.push(other.clone()),
+            other => out.push(map_rows(other, &|r| tup(fidx(r, 0, arities.get(r).copied().unwrap_or(0))))),
         }
     }
     out
 }
 
+/// `t` with each whole input row `$r` replaced by `row(r)`. A demand row's
+/// value carries a chain and a query id after the fields a user's term is
+/// about, and a re-keyed row has its fields elsewhere.
+fn map_rows(t: &Term, row: &dyn Fn(usize) -> Term) -> Term {
+    let one = |t: &Term| Box::new(map_rows(t, row));
+    let all = |ts: &[Term]| ts.iter().map(|t| map_rows(t, row)).collect::<Vec<_>>();
+    match t {
+        Term::Var(r) => row(*r),
+        Term::Bound(_) | Term::Int(_) => t.clone(),
+        Term::Tuple(ts) => Term::Tuple(all(ts)),
+        Term::List(ts) => Term::List(all(ts)),
+        Term::Spread(t) => Term::Spread(one(t)),
+        Term::Proj(t, i) => match (&**t, *one(t)) {
+            (Term::Var(_), Term::Tuple(mut fields)) if *i < fields.len() => fields.swap_remove(*i),
+            (_, other) => fld(other, *i),
+        },
+        Term::Inject(tag, t) => Term::Inject(one(tag), one(t)),
+        Term::Case { scrutinee, arms, default } => Term::Case { scrutinee: one(scrutinee), arms: all(arms), default: default.as_deref().map(|d| one(d)) },
+        Term::Fold { list, init, step } => Term::Fold { list: one(list), init: one(init), step: one(step) },
+        Term::If { cond, then, els } => Term::If { cond: one(cond), then: one(then), els: one(els) },
+        Term::Unary(op, t) => Term::Unary(*op, one(t)),
+        Term::Binary(op, l, r) => Term::Binary(*op, one(l), one(r)),
+        Term::Hash(ts) => Term::Hash(all(ts)),
+    }
+}
+
 impl RowModel for Val {
     type Proj = Projection;
     type Pred = Term;
@@ -994,7 +1021,8 @@ impl<'a> Reverse<'a> {
                         self.contribs.entry(target).or_default().push(contrib);
                     }
                     LinearOp::Filter(cond) => {
-                        let contrib = ex.filter(dep_this, cond.clone());
+                        let cond = map_rows(cond, &|r| if r == 0 { var(0) } else { tup(fidx(r, 0, v)) });
+                        let contrib = ex.filter(dep_this, cond);
                         self.push(ex, path, input, contrib, out_user_len);
                     }
                     LinearOp::Negate | LinearOp::EnterAt(_) => {
-- 
2.43.0


From cf823ad7e663bf9c9809efeddf5be85b9d5ebf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:15 +0000
Subject: [PATCH 11/11] fix: lookup_map does not hold back times before those
 of the requests it defers

---
 dogsdogsdogs/src/operators/lookup_map.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dogsdogsdogs/src/operators/lookup_map.rs b/dogsdogsdogs/src/operators/lookup_map.rs
index 25cda23..4895ff6 100644
--- a/dogsdogsdogs/src/operators/lookup_map.rs
+++ b/dogsdogsdogs/src/operators/lookup_map.rs
@@ -71,6 +71,9 @@ where
         // to observe the frontier and to drive scheduling.
         input2.for_each(|_, _| { });
 
+        // Deferred requests to return to the stash, with later capabilities.
+        let mut stash_additions = HashMap::new();
+
         if let Some(ref mut trace) = propose_trace {
 
             for (capability, prefixes) in stash.iter_mut() {
@@ -117,6 +120,21 @@ where
                     }
 
                     prefixes.retain(|ptd| !ptd.2.is_zero());
+
+                    // Do not hold back times before those of the deferred requests.
+                    let mut antichain = Antichain::new();
+                    for (_, time, _) in prefixes.iter() {
+                        antichain.insert(time.clone());
+                    }
+                    if !antichain.less_equal(capability.time()) {
+                        for (prefix, time, diff) in prefixes.drain(..) {
+                            let lower = antichain.iter().find(|t| t.less_equal(&time)).unwrap();
+                            stash_additions
+                                .entry(capability.delayed(lower))
+                                .or_insert(Vec::new())
+                                .push((prefix, time, diff));
+                        }
+                    }
                 }
             }
 
@@ -125,6 +143,10 @@ where
         // drop fully processed capabilities.
         stash.retain(|_,prefixes| !prefixes.is_empty());
 
+        for (capability, prefixes) in stash_additions {
+            stash.entry(capability).or_insert(Vec::new()).extend(prefixes);
+        }
+
         // The logical merging frontier depends on both input1 and stash.
         let mut frontier = timely::progress::frontier::Antichain::new();
         for time in frontier1.frontier().to_vec() {
-- 
2.43.0

