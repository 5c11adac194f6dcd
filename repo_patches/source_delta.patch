From 0008c100f734270ac8179400813ef49b6e3cdb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 1/3] fix: hand out a positive chunk size from the
 single-threaded Worker::scope

Worker::scope(0, ..) passed a chunk size of 0 to its closure, on which
chunks() and chunks_mut() panic. The multicore implementation already
never hands out 0.
---
 src/multicore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..c676f61 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -168,7 +168,9 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // There is a single chunk; its size must be positive for `chunks_mut`
+            // and friends, even if there are no elements.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0


From 76623f934629da57f2a1234e97ef132b414e51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 2/3] fix: don't abort the process when a pending computation
 is abandoned

If the Waiter returned by Worker::compute is dropped before the task has
finished (for instance because create_proof returns an error early), the
send of the result fails, and unwrapping that failure panicked inside a
rayon::spawn task, which aborts the process. It also leaked an increment
of WORKER_SPAWN_COUNTER.
---
 src/multicore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index c676f61..437f232 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,17 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The Waiter may have been dropped without waiting for the
+                    // result, in which case there is nobody to send it to.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The Waiter may have been dropped without waiting for the
+                    // result, in which case there is nobody to send it to.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From 3f18bea856f242e7d3a5c1c02b2fd66c90536346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 3/3] fix: agree with the parameters on variables whose terms
 cancel out

The prover counted a variable in the query densities if any of its terms
in a linear combination had a non-zero coefficient, while the generator
omits the element of a variable whose coefficients add up to zero, so
proving from a circuit with cancelling terms failed.
---
 groth16/src/prover.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..3334b2c 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -1,4 +1,5 @@
 use rand_core::RngCore;
+use std::collections::BTreeMap;
 use std::ops::{AddAssign, MulAssign};
 use std::sync::Arc;
 
@@ -16,6 +17,28 @@ use bellman::multiexp::{multiexp, DensityTracker, FullDensity};
 
 use bellman::multicore::Worker;
 
+/// Adds up the coefficients of each variable. A variable can occur in several terms
+/// that cancel out, in which case the parameters have no element for it.
+fn sum_terms<S: PrimeField>(lc: &LinearCombination<S>) -> Vec<(Variable, S)> {
+    let mut terms: Vec<(Variable, S)> = Vec::with_capacity(lc.as_ref().len());
+    let mut seen = BTreeMap::new();
+
+    for &(var, coeff) in lc.as_ref() {
+        let key = match var.get_unchecked() {
+            Index::Input(i) => (false, i),
+            Index::Aux(i) => (true, i),
+        };
+        let pos = *seen.entry(key).or_insert(terms.len());
+        if pos == terms.len() {
+            terms.push((var, coeff));
+        } else {
+            terms[pos].1 += coeff;
+        }
+    }
+
+    terms
+}
+
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
     mut input_density: Option<&mut DensityTracker>,
@@ -25,7 +48,7 @@ fn eval<S: PrimeField>(
 ) -> S {
     let mut acc = S::ZERO;
 
-    for &(index, coeff) in lc.as_ref() {
+    for (index, coeff) in sum_terms(lc) {
         let mut tmp;
 
         if !coeff.is_zero_vartime() {
-- 
2.43.0

