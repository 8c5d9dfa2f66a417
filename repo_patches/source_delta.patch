From cf67c7858f6720028eeacf27541f1e400862c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:51 +0000
Subject: [PATCH 01/52] fix: union with a first operand that has states but no
 start state used the wrong start

---
 rustfst/src/algorithms/union/union_static.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,8 +87,10 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From c5d291c2f4254c68ac3baa7eb8acd2c2e46af544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:02 +0000
Subject: [PATCH 02/52] fix: rm_final_epsilon multiplied the final weight and
 the transition weight in the wrong order

---
 rustfst/src/algorithms/rm_final_epsilon.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/rm_final_epsilon.rs b/rustfst/src/algorithms/rm_final_epsilon.rs
index e8f1f83..2a55869 100644
--- a/rustfst/src/algorithms/rm_final_epsilon.rs
+++ b/rustfst/src/algorithms/rm_final_epsilon.rs
@@ -52,9 +52,8 @@ where
                             ifst.final_weight_unchecked(state).unwrap_or_else(W::zero)
                         })
                         .plus_assign(
-                            ifst.final_weight_unchecked(tr.nextstate)
-                                .unsafe_unwrap()
-                                .times(&tr.weight)?,
+                            tr.weight
+                                .times(ifst.final_weight_unchecked(tr.nextstate).unsafe_unwrap())?,
                         )?
                 };
                 trs_to_del.push(idx);
-- 
2.43.0


From 7d7639ae880483cbd92e72a72d2eba9889055674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:02 +0000
Subject: [PATCH 03/52] fix: shortest_distance tested the wrong state before
 re-enqueueing, losing work after a self-loop

---
 rustfst/src/algorithms/shortest_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 715d16f..5030f5b 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -221,7 +221,7 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                     na.plus_assign(&weight)?;
                     *nd = na.clone();
                     nr.plus_assign(&weight)?;
-                    if !self.enqueued[state] {
+                    if !self.enqueued[nextstate] {
                         self.state_queue.enqueue(nextstate as StateId);
                         self.enqueued[nextstate] = true;
                     } else {
-- 
2.43.0


From e06c1e82f2aa5362d45a76792cfbe05eb3034991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 04/52] fix: depth-first visits skipped all states of an FST
 without start state, so cycles were reported acyclic and condense panicked

---
 rustfst/src/algorithms/condense.rs   |  2 +-
 rustfst/src/algorithms/dfs_visit.rs  | 16 +++++++---------
 rustfst/src/algorithms/state_sort.rs | 13 +++++--------
 3 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/rustfst/src/algorithms/condense.rs b/rustfst/src/algorithms/condense.rs
index 7a04985..391000e 100644
--- a/rustfst/src/algorithms/condense.rs
+++ b/rustfst/src/algorithms/condense.rs
@@ -27,7 +27,7 @@ pub fn condense<W: Semiring, FI: Fst<W> + ExpandedFst<W>, FO: MutableFst<W>>(
                 let c = c as StateId;
                 let s = s as StateId;
 
-                if s == ifst.start().unwrap() {
+                if Some(s) == ifst.start() {
                     ofst.set_start_unchecked(c);
                 }
                 if let Some(final_weight) = ifst.final_weight_unchecked(s) {
diff --git a/rustfst/src/algorithms/dfs_visit.rs b/rustfst/src/algorithms/dfs_visit.rs
index d810b21..13b9950 100644
--- a/rustfst/src/algorithms/dfs_visit.rs
+++ b/rustfst/src/algorithms/dfs_visit.rs
@@ -102,13 +102,11 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
     access_only: bool,
 ) {
     visitor.init_visit(fst);
-    let start = match fst.start() {
-        None => {
-            visitor.finish_visit();
-            return;
-        }
-        Some(s) => s,
-    };
+    let start = fst.start();
+    if start.is_none() && access_only {
+        visitor.finish_visit();
+        return;
+    }
 
     let nstates = fst.num_states();
     let mut state_color = vec![DfsStateColor::White; nstates];
@@ -116,7 +114,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
 
     // Continue dfs while true.
     let mut dfs = true;
-    let mut root = start;
+    let mut root = start.unwrap_or(0);
     loop {
         if !dfs || (root as usize) >= nstates {
             break;
@@ -178,7 +176,7 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
             break;
         }
 
-        root = if root == start { 0 } else { root + 1 };
+        root = if Some(root) == start { 0 } else { root + 1 };
 
         while (root as usize) < nstates && state_color[root as usize] != DfsStateColor::White {
             root += 1;
diff --git a/rustfst/src/algorithms/state_sort.rs b/rustfst/src/algorithms/state_sort.rs
index 30e5463..d810768 100644
--- a/rustfst/src/algorithms/state_sort.rs
+++ b/rustfst/src/algorithms/state_sort.rs
@@ -24,20 +24,17 @@ where
         order.len(),
         fst.num_states()
     );
-    if fst.start().is_none() {
-        return Ok(());
-    }
     // TODO: Use properties with mask once available
     let props = fst.properties_with_mask(FstProperties::statesort_properties());
 
-    let start_state = fst.start().unwrap();
-
     let mut done = vec![false; order.len()];
 
-    debug_assert!((start_state as usize) < order.len());
-    debug_assert!((order[start_state as usize] as usize) < fst.num_states());
+    if let Some(start_state) = fst.start() {
+        debug_assert!((start_state as usize) < order.len());
+        debug_assert!((order[start_state as usize] as usize) < fst.num_states());
 
-    fst.set_start(order[start_state as usize])?;
+        fst.set_start(order[start_state as usize])?;
+    }
 
     for mut s1 in fst.states_range() {
         if done[s1 as usize] {
-- 
2.43.0


From ed1ef2604c04d20a65206ecb352d3e6b727b5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 05/52] fix: closure of the tropical zero was -infinity instead
 of one

---
 rustfst/src/semirings/tropical_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/tropical_weight.rs b/rustfst/src/semirings/tropical_weight.rs
index 13663fa..bfbc062 100644
--- a/rustfst/src/semirings/tropical_weight.rs
+++ b/rustfst/src/semirings/tropical_weight.rs
@@ -116,7 +116,7 @@ impl CompleteSemiring for TropicalWeight {}
 
 impl StarSemiring for TropicalWeight {
     fn closure(&self) -> Self {
-        if self.value.is_sign_positive() && self.value.is_finite() {
+        if self.value.0 >= 0.0 {
             Self::new(0.0)
         } else {
             Self::new(f32::NEG_INFINITY)
-- 
2.43.0


From f64f753923edf2d7443657d9599e509cca5f49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 06/52] fix: closure of a log weight did not solve w* = 1 + w
 w*

---
 rustfst/src/semirings/log_weight.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/semirings/log_weight.rs b/rustfst/src/semirings/log_weight.rs
index 09ee25d..57cee48 100644
--- a/rustfst/src/semirings/log_weight.rs
+++ b/rustfst/src/semirings/log_weight.rs
@@ -124,8 +124,8 @@ impl CompleteSemiring for LogWeight {}
 
 impl StarSemiring for LogWeight {
     fn closure(&self) -> Self {
-        if self.value.0 >= 0.0 && self.value.0 < 1.0 {
-            Self::new((1.0 - self.value.0).ln())
+        if self.value.0 > 0.0 {
+            Self::new((-(-self.value.0).exp()).ln_1p())
         } else {
             Self::new(f32::NEG_INFINITY)
         }
-- 
2.43.0


From fc7d44146f45d4e8013ce5a0731b35ada298c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 07/52] fix: ProbabilityWeight::reverse_back was unimplemented
 and panicked

---
 rustfst/src/semirings/probability_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/probability_weight.rs b/rustfst/src/semirings/probability_weight.rs
index 0591345..5da8a8a 100644
--- a/rustfst/src/semirings/probability_weight.rs
+++ b/rustfst/src/semirings/probability_weight.rs
@@ -84,7 +84,7 @@ impl Semiring for ProbabilityWeight {
 
 impl ReverseBack<ProbabilityWeight> for ProbabilityWeight {
     fn reverse_back(&self) -> Result<ProbabilityWeight> {
-        unimplemented!()
+        Ok(*self)
     }
 }
 
-- 
2.43.0


From a0e7b954b068058a61ac967a7c92842e9dbb9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:00 +0000
Subject: [PATCH 08/52] fix: tr_unique kept duplicates separated by a
 transition that differs only in weight

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..6997303 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -359,7 +359,20 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let state = &mut self.states.get_unchecked_mut(state as usize);
         let trs_vec = Arc::make_mut(&mut state.trs.0);
         trs_vec.sort_by(tr_compare);
-        trs_vec.dedup();
+        // Transitions that only differ by their weights are adjacent but in no particular order.
+        let mut n_trs: usize = 0;
+        for i in 0..trs_vec.len() {
+            let duplicate = trs_vec[..n_trs]
+                .iter()
+                .rev()
+                .take_while(|tr| equal_tr(tr, &trs_vec[i]))
+                .any(|tr| *tr == trs_vec[i]);
+            if !duplicate {
+                trs_vec.swap(n_trs, i);
+                n_trs += 1;
+            }
+        }
+        trs_vec.truncate(n_trs);
 
         // There might be a better way to do this
         if state.niepsilons != 0 || state.noepsilons != 0 {
-- 
2.43.0


From 8b4f440fcfba14f9fa77e7de7ae5499903a9b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:18 +0000
Subject: [PATCH 09/52] fix: del_states panicked on a non-existent state
 instead of returning an error

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 6997303..55aa8c0 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,7 +133,9 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
-            new_id[s as usize] = -1;
+            *new_id
+                .get_mut(s as usize)
+                .ok_or_else(|| format_err!("State id {:?} doesn't exist", s))? = -1;
         }
 
         let mut nstates = 0_usize;
-- 
2.43.0


From 252c3a4431647d85df6f68b271c20d57d2fe68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 10/52] fix: compute_fst_properties reported STRING for
 machines whose start is not state 0

---
 rustfst/src/fst_properties/compute_fst_properties.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/fst_properties/compute_fst_properties.rs b/rustfst/src/fst_properties/compute_fst_properties.rs
index d8558c4..c2e893d 100644
--- a/rustfst/src/fst_properties/compute_fst_properties.rs
+++ b/rustfst/src/fst_properties/compute_fst_properties.rs
@@ -196,11 +196,9 @@ pub fn compute_fst_properties<W: Semiring, F: ExpandedFst<W>>(
             }
         }
 
-        if let Some(start) = fst.start() {
-            if start != 0 {
-                comp_props |= FstProperties::NOT_STRING;
-                comp_props &= !FstProperties::STRING;
-            }
+        if fst.num_states() > 0 && fst.start() != Some(0) {
+            comp_props |= FstProperties::NOT_STRING;
+            comp_props &= !FstProperties::STRING;
         }
     }
 
-- 
2.43.0


From 87678c9d3d96f2fe722b14af750be7a96567c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 11/52] fix: fst_convert dropped the states of an FST without
 start state

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From df213ec3c2d047f403ac74dde359c4fedbb6f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 12/52] fix: epsilon mappers claimed epsilons on machines
 without transitions

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 5 ++---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..06c6234 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,8 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        // Whether there are epsilons depends on whether there are transitions at all.
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..5c26ced 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,8 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        // Whether there are epsilons depends on whether there are transitions at all.
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From 563daa21eea46fef626d161118cbb4ad70552e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 13/52] fix: replace_properties propagated flags of components
 never called

---
 .../src/fst_properties/mutate_properties.rs   | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/rustfst/src/fst_properties/mutate_properties.rs b/rustfst/src/fst_properties/mutate_properties.rs
index 6fff2c0..7e4e7aa 100644
--- a/rustfst/src/fst_properties/mutate_properties.rs
+++ b/rustfst/src/fst_properties/mutate_properties.rs
@@ -525,29 +525,15 @@ pub fn replace_properties(
         if inprops[root as usize].contains(FstProperties::INITIAL_CYCLIC) {
             outprops |= FstProperties::INITIAL_CYCLIC;
         }
-        let mut props = FstProperties::empty();
-        let mut string = true;
-        for inprop in inprops {
-            if replace_transducer {
-                props |= FstProperties::NOT_ACCEPTOR & *inprop;
-            }
-            props |= (FstProperties::NOT_I_DETERMINISTIC
-                | FstProperties::NOT_O_DETERMINISTIC
-                | FstProperties::EPSILONS
+        // The other FSTs are not necessarily called, only the root FST is known to be expanded.
+        outprops |= inprops[root as usize]
+            & (FstProperties::EPSILONS
                 | FstProperties::I_EPSILONS
                 | FstProperties::O_EPSILONS
                 | FstProperties::WEIGHTED
                 | FstProperties::WEIGHTED_CYCLES
-                | FstProperties::CYCLIC
-                | FstProperties::NOT_TOP_SORTED
-                | FstProperties::NOT_STRING)
-                & *inprop;
-            if !inprop.contains(FstProperties::STRING) {
-                string = false;
-            }
-        }
-        outprops |= props;
-        if string {
+                | FstProperties::CYCLIC);
+        if inprops.iter().all(|p| p.contains(FstProperties::STRING)) {
             outprops |= FstProperties::STRING;
         }
     }
-- 
2.43.0


From dd9496233ebbdfa02147367b7588bf53ed08a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 14/52] fix: SimpleWeightConverter kept weight-dependent
 properties

---
 .../src/algorithms/weight_converters/simple_weight_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
index de59725..9aea5de 100644
--- a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
+++ b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
@@ -36,6 +36,6 @@ where
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        inprops
+        inprops & FstProperties::weight_invariant_properties()
     }
 }
-- 
2.43.0


From a11a7118bc6397626b5b4b8b058f2d783a3af280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:32 +0000
Subject: [PATCH 15/52] fix: minimization of cyclic automata depended on the
 order of transitions

---
 rustfst/src/algorithms/minimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..c9ac3f5 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -486,6 +486,7 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
                 .trs()
                 .iter()
                 .map(|e| e.ilabel)
+                .sorted_unstable()
                 .dedup()
                 .collect_vec();
 
-- 
2.43.0


From 89198b4900658989cf1df642a80778e404a75fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:04 +0000
Subject: [PATCH 16/52] fix: minimize failed on weighted FSTs without start
 state

---
 rustfst/src/algorithms/minimize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index c9ac3f5..209307a 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -183,6 +183,12 @@ pub fn acceptor_minimize<W: Semiring, F: MutableFst<W> + ExpandedFst<W>>(
     ifst: &mut F,
     allow_acyclic_minimization: bool,
 ) -> Result<()> {
+    connect(ifst)?;
+
+    if ifst.num_states() == 0 {
+        return Ok(());
+    }
+
     let props = ifst.compute_and_update_properties(
         FstProperties::ACCEPTOR | FstProperties::UNWEIGHTED | FstProperties::ACYCLIC,
     )?;
@@ -190,12 +196,6 @@ pub fn acceptor_minimize<W: Semiring, F: MutableFst<W> + ExpandedFst<W>>(
         bail!("FST is not an unweighted acceptor");
     }
 
-    connect(ifst)?;
-
-    if ifst.num_states() == 0 {
-        return Ok(());
-    }
-
     if allow_acyclic_minimization && props.contains(FstProperties::ACYCLIC) {
         // Acyclic minimization
         tr_sort(ifst, ILabelCompare {});
-- 
2.43.0


From 15dbab33e0706e03ac443aa5930cceed72df4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:11 +0000
Subject: [PATCH 17/52] fix: determinization depended on hash iteration order
 and duplicated states

---
 rustfst/src/algorithms/determinize/determinize_fsa_op.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..cf165a9 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,13 +154,13 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From 4025b27f9da432bad51539e6c86c49f1550db0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 18/52] fix: removing the common affix of a machine without
 accepting path panicked

---
 rustfst/src/algorithms/push.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/push.rs b/rustfst/src/algorithms/push.rs
index cfdf649..2e45657 100644
--- a/rustfst/src/algorithms/push.rs
+++ b/rustfst/src/algorithms/push.rs
@@ -203,11 +203,14 @@ macro_rules! m_labels_pushing {
                 &gdistance,
                 $reweight_type == ReweightType::ReweightToInitial,
             )?;
-            if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
-                total_weight.set_value1($string_weight::one());
-            }
-            if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
-                total_weight.set_value2(W::one());
+            // A machine without accepting path has nothing to remove.
+            if !total_weight.is_zero() {
+                if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
+                    total_weight.set_value1($string_weight::one());
+                }
+                if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
+                    total_weight.set_value2(W::one());
+                }
             }
             reweight(&mut gfst, gdistance.as_slice(), $reweight_type)?;
             remove_weight(
-- 
2.43.0


From fa7a4eaac330a7992734280cc543840e68c26583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:48 +0000
Subject: [PATCH 19/52] fix: approx_equal denied that an infinite weight equals
 itself

---
 rustfst/src/semirings/utils_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/utils_float.rs b/rustfst/src/semirings/utils_float.rs
index 0fc9f14..bcf8d62 100644
--- a/rustfst/src/semirings/utils_float.rs
+++ b/rustfst/src/semirings/utils_float.rs
@@ -1,3 +1,4 @@
 pub(crate) fn float_approx_equal(w1: f32, w2: f32, delta: f32) -> bool {
-    (w1 - w2).abs() <= delta
+    // The first test is for equal infinities, whose difference is not a number.
+    w1 == w2 || (w1 - w2).abs() <= delta
 }
-- 
2.43.0


From e9d7ec930112c6df4cd35c4b7f6f21aec51b676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:15 +0000
Subject: [PATCH 20/52] fix: decode panicked on epsilon transitions added after
 the encoding

---
 rustfst/src/algorithms/encode/decode_static.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/encode/decode_static.rs b/rustfst/src/algorithms/encode/decode_static.rs
index 58bcf59..12dbbd5 100644
--- a/rustfst/src/algorithms/encode/decode_static.rs
+++ b/rustfst/src/algorithms/encode/decode_static.rs
@@ -4,7 +4,7 @@ use crate::algorithms::{encode::EncodeTable, rm_final_epsilon};
 use crate::algorithms::{FinalTr, MapFinalAction, TrMapper};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
-use crate::{Semiring, Tr};
+use crate::{Semiring, Tr, EPS_LABEL};
 
 struct DecodeMapper<W: Semiring> {
     encode_table: EncodeTable<W>,
@@ -26,6 +26,10 @@ impl<W: Semiring> DecodeMapper<W> {
 
 impl<W: Semiring> TrMapper<W> for DecodeMapper<W> {
     fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
+        // Epsilon is never the code of a tuple: the transition was added after the encoding.
+        if tr.ilabel == EPS_LABEL {
+            return Ok(());
+        }
         let tuple = self
             .encode_table
             .0
-- 
2.43.0


From 3496b9ce2bd02c69753665eba8bc43c0fa89a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 21/52] fix: the text form of an FST lost its start state when
 no transition leaves it

---
 rustfst/src/fst_traits/macros.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rustfst/src/fst_traits/macros.rs b/rustfst/src/fst_traits/macros.rs
index 8b90c9e..efb10e3 100644
--- a/rustfst/src/fst_traits/macros.rs
+++ b/rustfst/src/fst_traits/macros.rs
@@ -46,6 +46,16 @@ macro_rules! display_single_state {
 macro_rules! write_fst {
     ($fst:expr, $f:expr, $show_weight_one: expr, $use_symt: expr) => {
         if let Some(start_state) = $fst.start() {
+            // A reader takes the first state mentioned as the start state. When no tr leaves
+            // the start state, its final weight ("Infinity" if not final) has to come first.
+            if $fst.num_trs(start_state).unwrap() == 0 {
+                match $fst.final_weight(start_state).unwrap() {
+                    Some(w) if w.is_one() && !$show_weight_one => writeln!($f, "{}", &start_state)?,
+                    Some(w) => writeln!($f, "{}\t{}", &start_state, &w)?,
+                    None => writeln!($f, "{}\tInfinity", &start_state)?,
+                }
+            }
+
             // Firstly print the trs leaving the start state
             display_single_state!($fst, start_state, $f, $show_weight_one, $use_symt);
 
@@ -58,6 +68,10 @@ macro_rules! write_fst {
 
             // Finally, print the final states with their weight
             for final_state in $fst.final_states_iter() {
+                if final_state == start_state && $fst.num_trs(start_state).unwrap() == 0 {
+                    // Already printed
+                    continue;
+                }
                 let final_weight =
                     unsafe { $fst.final_weight_unchecked(final_state).unsafe_unwrap() };
                 if final_weight.is_one() && !$show_weight_one {
-- 
2.43.0


From a113bb9cdc02bca2393e969625198894fe493b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 22/52] fix: saving an FST or symbol table to a full device
 reported success

---
 rustfst/src/fst_traits/serializable_fst.rs | 6 +++++-
 rustfst/src/symbol_table.rs                | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..1e332b3 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,11 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..ed4ea8c 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -269,6 +269,9 @@ impl<H: BuildHasher> SymbolTable<H> {
 
         write!(writer, "{}", self)?;
 
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        writer.flush()?;
+
         Ok(())
     }
 
@@ -278,6 +281,8 @@ impl<H: BuildHasher> SymbolTable<H> {
 
         write_bin_symt(&mut writer, self)?;
 
+        writer.flush()?;
+
         Ok(())
     }
 
-- 
2.43.0


From c9f543bd9c4a2d507601b9b662005e7279714f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 23/52] fix: report an invalid UTF-8 string in a binary header
 instead of panicking

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From 7fd4408363126c388571987e51062ac55299ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 24/52] fix: reject binary files whose state references are out
 of range

---
 .../src/fst_impls/const_fst/serializable_fst.rs  | 16 ++++++++++++++--
 rustfst/src/fst_impls/vector_fst/parse_const.rs  |  8 +++++++-
 .../src/fst_impls/vector_fst/serializable_fst.rs | 11 +++++++++--
 rustfst/src/parsers/bin_fst/utils_parsing.rs     | 16 ++++++++++++++++
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/fst_impls/const_fst/serializable_fst.rs b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
index da7fde4..7ff8d94 100644
--- a/rustfst/src/fst_impls/const_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use anyhow::Result;
 use itertools::Itertools;
 use nom::bytes::complete::take;
+use nom::error::ErrorKind;
 use nom::multi::count;
 use nom::IResult;
 
@@ -16,7 +17,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{ExpandedFst, Fst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_states,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::parse_bin_i32;
@@ -214,7 +215,8 @@ fn parse_const_fst<W: SerializableSemiring>(
     if aligned && hdr.num_states > 0 && pos % CONST_ARCH_ALIGNMENT > 0 {
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
-    let (mut i, const_states) = count(parse_const_state, hdr.num_states as usize)(i)?;
+    let (mut i, const_states): (_, Vec<ConstState<W>>) =
+        count(parse_const_state, hdr.num_states as usize)(i)?;
     let pos = stream_len - i.len();
 
     // Align input
@@ -223,6 +225,16 @@ fn parse_const_fst<W: SerializableSemiring>(
     }
     let (i, const_trs) = count(parse_bin_fst_tr, hdr.num_trs as usize)(i)?;
 
+    verify_states(i, const_states.len(), hdr.start, const_trs.iter())?;
+    // The trs of each state have to be a slice of the trs of the Fst.
+    if const_states.iter().any(|s| {
+        s.pos
+            .checked_add(s.ntrs)
+            .map_or(true, |end| end > const_trs.len())
+    }) {
+        return Err(nom::Err::Error(NomCustomError::Nom(i, ErrorKind::Verify)));
+    }
+
     Ok((
         i,
         ConstFst {
diff --git a/rustfst/src/fst_impls/vector_fst/parse_const.rs b/rustfst/src/fst_impls/vector_fst/parse_const.rs
index e5ca2e9..aa67893 100644
--- a/rustfst/src/fst_impls/vector_fst/parse_const.rs
+++ b/rustfst/src/fst_impls/vector_fst/parse_const.rs
@@ -17,7 +17,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::SerializableFst;
 use crate::parsers::bin_fst::fst_header::FstHeader;
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_states,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::semirings::SerializableSemiring;
@@ -105,6 +105,12 @@ fn parse_const_fst<W: SerializableSemiring>(
             noepsilons: temp_state.noepsilons,
         });
     }
+    verify_states(
+        i,
+        vector_states.len(),
+        hdr.start,
+        vector_states.iter().flat_map(|s| s.trs.0.iter()),
+    )?;
 
     Ok((
         i,
diff --git a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
index 1ca8e1f..b259452 100644
--- a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
@@ -12,7 +12,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, ExpandedFst, Fst, MutableFst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    parse_bin_fst_tr, parse_final_weight, parse_start_state, verify_states,
 };
 use crate::parsers::bin_fst::utils_serialization::write_bin_fst_tr;
 use crate::parsers::nom_utils::NomCustomError;
@@ -154,7 +154,14 @@ fn parse_vector_fst<W: SerializableSemiring>(
         VectorFst::<W>::fst_type(),
         Tr::<W>::tr_type(),
     )?;
-    let (i, states) = count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    let (i, states): (_, Vec<VectorFstState<W>>) =
+        count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    verify_states(
+        i,
+        states.len(),
+        header.start,
+        states.iter().flat_map(|s| s.trs.trs()),
+    )?;
     Ok((
         i,
         VectorFst {
diff --git a/rustfst/src/parsers/bin_fst/utils_parsing.rs b/rustfst/src/parsers/bin_fst/utils_parsing.rs
index a0c7d76..2101905 100644
--- a/rustfst/src/parsers/bin_fst/utils_parsing.rs
+++ b/rustfst/src/parsers/bin_fst/utils_parsing.rs
@@ -1,3 +1,4 @@
+use nom::error::ErrorKind;
 use nom::number::complete::le_i32;
 use nom::IResult;
 
@@ -14,6 +15,21 @@ pub(crate) fn parse_start_state(s: i64) -> Option<StateId> {
     }
 }
 
+/// Checks that the start state and the destinations of the trs exist.
+pub(crate) fn verify_states<'a, 'b, W: SerializableSemiring>(
+    i: &'a [u8],
+    num_states: usize,
+    start: i64,
+    mut trs: impl Iterator<Item = &'b Tr<W>>,
+) -> Result<(), nom::Err<NomCustomError<&'a [u8]>>> {
+    let valid_start = start == -1 || (start >= 0 && start < num_states as i64);
+    if valid_start && trs.all(|tr| (tr.nextstate as usize) < num_states) {
+        Ok(())
+    } else {
+        Err(nom::Err::Error(NomCustomError::Nom(i, ErrorKind::Verify)))
+    }
+}
+
 #[inline]
 pub(crate) fn parse_final_weight<W: SerializableSemiring>(weight: W) -> Option<W> {
     // TODO: Avoid this re-allocation
-- 
2.43.0


From 4b94d6eb209d739e53d0477622003444fc593303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 25/52] fix: reject text files with a malformed row instead of
 dropping the rest

---
 rustfst/src/parsers/text_fst/parsed_text_fst.rs   | 9 ++++++++-
 rustfst/src/parsers/text_symt/nom_parser.rs       | 4 +++-
 rustfst/src/parsers/text_symt/parsed_text_symt.rs | 9 ++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/parsers/text_fst/parsed_text_fst.rs b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
index 4c88236..051880e 100644
--- a/rustfst/src/parsers/text_fst/parsed_text_fst.rs
+++ b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
@@ -85,8 +85,15 @@ impl<W: SerializableSemiring> ParsedTextFst<W> {
     /// 3   0.67
     /// ```
     pub fn from_string(fst_string: &str) -> Result<Self> {
-        let (_, vec_rows_parsed) =
+        let (remaining, vec_rows_parsed) =
             vec_rows_parsed(fst_string).map_err(|_| format_err!("Error while parsing text fst"))?;
+        // The parser stops at the first row it can't parse.
+        if !remaining.trim().is_empty() {
+            bail!(
+                "Error while parsing text fst. Can't parse : {:?}",
+                remaining.trim().lines().next()
+            );
+        }
 
         Ok(Self::from_vec_rows_parsed(vec_rows_parsed))
     }
diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..903bbfa 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,5 +1,7 @@
+use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::space1;
+use nom::combinator::eof;
 use nom::multi::many0;
 use nom::sequence::terminated;
 use nom::IResult;
@@ -16,7 +18,7 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    many0(terminated(row, alt((tag("\n"), eof))))(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
diff --git a/rustfst/src/parsers/text_symt/parsed_text_symt.rs b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
index 73a8b5c..b7883cb 100644
--- a/rustfst/src/parsers/text_symt/parsed_text_symt.rs
+++ b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
@@ -13,8 +13,15 @@ pub(crate) struct ParsedTextSymt {
 
 impl ParsedTextSymt {
     pub(crate) fn from_string(symt_string: &str) -> Result<Self> {
-        let (_, parsed_symt) = parse_text_symt(symt_string)
+        let (remaining, parsed_symt) = parse_text_symt(symt_string)
             .map_err(|_| format_err!("Error while parsing text symt"))?;
+        // The parser stops at the first row it can't parse.
+        if !remaining.trim().is_empty() {
+            bail!(
+                "Error while parsing text symt. Can't parse : {:?}",
+                remaining.trim().lines().next()
+            );
+        }
         Ok(parsed_symt)
     }
 
-- 
2.43.0


From 29afd416331734cd8d3e73fab7501c9bef29ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:07 +0000
Subject: [PATCH 26/52] fix: a delayed FST answered transition counts only for
 already expanded states

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 8 +++++++-
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..a713dcd 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -61,13 +61,15 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,12 +92,16 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..9167e72 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -56,13 +56,15 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,12 +88,16 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        // The counts are known once the state has been expanded
+        self.get_trs(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
-- 
2.43.0


From e505036b8103c961cf3beb348e98c39c3036366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:39 +0000
Subject: [PATCH 27/52] fix: path lookup compared output labels at the input
 position

---
 rustfst/src/fst_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_path.rs b/rustfst/src/fst_path.rs
index acb3db3..2b09af8 100644
--- a/rustfst/src/fst_path.rs
+++ b/rustfst/src/fst_path.rs
@@ -126,7 +126,7 @@ pub fn check_path_in_fst<W: Semiring, F: Fst<W>>(fst: &F, fst_path: &FstPath<W>)
                 let match_ilabel = next_ilabel_idx < fst_path.ilabels.len()
                     && tr.ilabel == fst_path.ilabels[next_ilabel_idx];
                 let match_olabel = next_olabel_idx < fst_path.olabels.len()
-                    && tr.olabel == fst_path.olabels[next_ilabel_idx];
+                    && tr.olabel == fst_path.olabels[next_olabel_idx];
                 let (new_next_ilabel_idx, new_next_olabel_idx) =
                     if tr.ilabel == EPS_LABEL && tr.olabel == EPS_LABEL {
                         (next_ilabel_idx, next_olabel_idx)
-- 
2.43.0


From 85ac0781766527566d12dab631a6dc4081931818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 28/52] fix: the head of an empty ordered queue was a state or
 a panic

---
 rustfst/src/algorithms/queues/state_order_queue.rs | 6 +++++-
 rustfst/src/algorithms/queues/top_order_queue.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/state_order_queue.rs b/rustfst/src/algorithms/queues/state_order_queue.rs
index b7898fa..b6b0703 100644
--- a/rustfst/src/algorithms/queues/state_order_queue.rs
+++ b/rustfst/src/algorithms/queues/state_order_queue.rs
@@ -10,7 +10,11 @@ pub struct StateOrderQueue {
 
 impl Queue for StateOrderQueue {
     fn head(&mut self) -> Option<StateId> {
-        Some(self.front as StateId)
+        if self.is_empty() {
+            None
+        } else {
+            Some(self.front as StateId)
+        }
     }
 
     fn enqueue(&mut self, state: StateId) {
diff --git a/rustfst/src/algorithms/queues/top_order_queue.rs b/rustfst/src/algorithms/queues/top_order_queue.rs
index 5f1c4e2..baa1bc8 100644
--- a/rustfst/src/algorithms/queues/top_order_queue.rs
+++ b/rustfst/src/algorithms/queues/top_order_queue.rs
@@ -39,7 +39,11 @@ impl TopOrderQueue {
 
 impl Queue for TopOrderQueue {
     fn head(&mut self) -> Option<StateId> {
-        self.state[self.front as usize]
+        if self.is_empty() {
+            None
+        } else {
+            self.state[self.front as usize]
+        }
     }
 
     fn enqueue(&mut self, state: StateId) {
-- 
2.43.0


From f10eb2873e8c88ee69bc015b9422b5a846e83e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 29/52] fix: a component queue could report states after
 delivering all of them

---
 rustfst/src/algorithms/queues/scc_queue.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index 757d6f7..038609f 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -1,7 +1,5 @@
 use crate::algorithms::{Queue, QueueType};
 use crate::StateId;
-use std::cmp::Ordering;
-
 #[derive(Debug)]
 pub struct SccQueue {
     front: i32,
@@ -31,8 +29,12 @@ impl SccQueue {
 
 impl Queue for SccQueue {
     fn head(&mut self) -> Option<StateId> {
-        self.update_front();
-        self.queues[self.front as usize].head()
+        if self.is_empty() {
+            None
+        } else {
+            self.update_front();
+            self.queues[self.front as usize].head()
+        }
     }
 
     fn enqueue(&mut self, state: StateId) {
@@ -62,11 +64,8 @@ impl Queue for SccQueue {
     }
 
     fn is_empty(&self) -> bool {
-        match self.front.cmp(&self.back) {
-            Ordering::Less => false,
-            Ordering::Greater => true,
-            Ordering::Equal => self.queues[self.front as usize].is_empty(),
-        }
+        // The queues of the components after the front one may be empty as well.
+        (self.front..=self.back).all(|i| self.queues[i as usize].is_empty())
     }
 
     fn clear(&mut self) {
-- 
2.43.0


From cf565b19e2c99ea1b7b91c4d29036225849f1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:52 +0000
Subject: [PATCH 30/52] fix: the shortest-first queue delivered the worst state
 first and could not be updated

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index bf588f0..ec0e8ac 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -62,7 +62,9 @@ impl<C: Clone + FnMut(&StateId, &StateId) -> Ordering> Queue for ShortestFirstQu
     }
 
     fn update(&mut self, _state: StateId) {
-        unimplemented!()
+        // The comparison of the state with the others may have changed: order the heap again.
+        let states: Vec<_> = self.heap.drain().collect();
+        self.heap.extend(states);
     }
 
     fn is_empty(&self) -> bool {
@@ -87,10 +89,13 @@ impl NaturalShortestFirstQueue {
     pub fn new<W: 'static + Semiring>(weights: Vec<W>) -> Self {
         let a = StateWeightCompare::new(weights, natural_less);
         let heap = ShortestFirstQueue::new(move |v1, v2| {
+            // The heap delivers its greatest element first: the best state has to be the greatest.
             if a.compare(*v1, *v2).unwrap() {
+                Ordering::Greater
+            } else if a.compare(*v2, *v1).unwrap() {
                 Ordering::Less
             } else {
-                Ordering::Greater
+                Ordering::Equal
             }
         });
         NaturalShortestFirstQueue {
-- 
2.43.0


From 2c45242e40897ccf3f9d20163fff5367a90eff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:15 +0000
Subject: [PATCH 31/52] fix: TrsConst::to_trs_vec returns the transitions of
 its own state only

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 46a481ddcea2a5765ada55ac8e10f6c755ff54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:03 +0000
Subject: [PATCH 32/52] fix: isomorphic pairs states one to one and reports
 nondeterminism before pairing

---
 rustfst/src/algorithms/isomorphic.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rustfst/src/algorithms/isomorphic.rs b/rustfst/src/algorithms/isomorphic.rs
index 0651e0d..8995f8d 100644
--- a/rustfst/src/algorithms/isomorphic.rs
+++ b/rustfst/src/algorithms/isomorphic.rs
@@ -12,6 +12,8 @@ struct Isomorphism<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> {
     fst_1: &'a F1,
     fst_2: &'a F2,
     state_pairs: Vec<Option<StateId>>,
+    // Inverse of `state_pairs`: the correspondence has to be one to one.
+    state_pairs_inv: Vec<Option<StateId>>,
     queue: VecDeque<(StateId, StateId)>,
     w: PhantomData<W>,
     delta: f32,
@@ -53,6 +55,7 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             fst_1,
             fst_2,
             state_pairs: vec![None; fst_1.num_states()],
+            state_pairs_inv: vec![None; fst_2.num_states()],
             queue: VecDeque::new(),
             w: PhantomData,
             delta,
@@ -66,8 +69,11 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             return true; // already seen this pair
         } else if self.state_pairs[s1 as usize].is_some() {
             return false; // s1 already paired with another s2
+        } else if self.state_pairs_inv[s2 as usize].is_some() {
+            return false; // s2 already paired with another s1
         }
         self.state_pairs[s1 as usize] = Some(s2);
+        self.state_pairs_inv[s2 as usize] = Some(s1);
         self.queue.push_back((s1, s2));
         true
     }
@@ -100,6 +106,7 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
         trs1.sort_by(|a, b| tr_compare(a, b));
         trs2.sort_by(|a, b| tr_compare(a, b));
 
+        let mut nondet_state = false;
         for i in 0..trs1.len() {
             let arc1 = trs1[i];
             let arc2 = trs2[i];
@@ -112,22 +119,29 @@ impl<'a, W: Semiring, F1: ExpandedFst<W>, F2: ExpandedFst<W>> Isomorphism<'a, W,
             if !(arc1.weight.approx_equal(&arc2.weight, self.delta)) {
                 return Ok(false);
             }
-            if !(self.pair_state(arc1.nextstate, arc2.nextstate)) {
-                return Ok(false);
-            }
             if i > 0 {
                 let arc0 = trs1[i - 1];
                 if arc1.ilabel == arc0.ilabel
                     && arc1.olabel == arc0.olabel
                     && arc1.weight.approx_equal(&arc0.weight, self.delta)
                 {
-                    // Any subsequent matching failure maybe a false negative
-                    // since we only consider one permutation when pairing destination
-                    // states of nondeterministic transitions.
-                    self.non_det = true;
+                    nondet_state = true;
                 }
             }
         }
+
+        if nondet_state {
+            // Any subsequent matching failure maybe a false negative
+            // since we only consider one permutation when pairing destination
+            // states of nondeterministic transitions.
+            self.non_det = true;
+        }
+
+        for (arc1, arc2) in trs1.iter().zip(trs2.iter()) {
+            if !(self.pair_state(arc1.nextstate, arc2.nextstate)) {
+                return Ok(false);
+            }
+        }
         Ok(true)
     }
 
-- 
2.43.0


From 63597f99976866c397e46ce250cd4493cd4758f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:58 +0000
Subject: [PATCH 33/52] fix: weight_convert keeps the symbol tables of a
 machine without start state

---
 rustfst/src/algorithms/weight_convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/weight_convert.rs b/rustfst/src/algorithms/weight_convert.rs
index a7fe862..66c5745 100644
--- a/rustfst/src/algorithms/weight_convert.rs
+++ b/rustfst/src/algorithms/weight_convert.rs
@@ -32,6 +32,7 @@ where
 
     // Empty FST.
     if fst_in.start().is_none() {
+        fst_out.set_symts_from_fst(fst_in);
         return Ok(fst_out);
     }
 
-- 
2.43.0


From 54dd0a17af7b4e37cb7191d5884f72fafa283d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:59 +0000
Subject: [PATCH 34/52] fix: expanding a delayed machine without start state
 keeps its symbol tables

---
 rustfst/src/algorithms/lazy/lazy_fst.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index a713dcd..0f18d65 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -233,6 +233,12 @@ where
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -265,13 +271,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From a2e7d4f1756752c9e5e1a8c409d48295966090b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:27 +0000
Subject: [PATCH 35/52] fix: factoring final weights with different input and
 output labels does not yield an acceptor

---
 rustfst/src/algorithms/factor_weight/factor_weight_op.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
index f6a7192..45b0e89 100644
--- a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
+++ b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
@@ -144,7 +144,14 @@ where
             bail!("Factoring neither tr weights nor final weights");
         }
         let factor_tr_weights = opts.mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS);
-        let properties = factor_weight_properties(fst.borrow().properties());
+        let mut properties = factor_weight_properties(fst.borrow().properties());
+        // The transitions that spell a final weight out carry the configured labels.
+        if opts.mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS)
+            && (opts.final_ilabel != opts.final_olabel
+                || opts.increment_final_ilabel != opts.increment_final_olabel)
+        {
+            properties.remove(FstProperties::ACCEPTOR);
+        }
         Ok(Self {
             opts,
             fst,
-- 
2.43.0


From c3d9f6542a02f0803c3b860af47337f44b530ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:16 +0000
Subject: [PATCH 36/52] fix: FromGallicConverter reports an unfactored final
 weight as an error instead of panicking

---
 .../src/algorithms/weight_converters/from_gallic_mapper.rs    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs b/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
index 99115f6..a4ad0ab 100644
--- a/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
+++ b/rustfst/src/algorithms/weight_converters/from_gallic_mapper.rs
@@ -80,9 +80,9 @@ macro_rules! impl_weight_converter_gallic {
             }
 
             fn final_tr_map(&mut self, final_tr: &FinalTr<$gallic<W>>) -> Result<FinalTr<W>> {
-                let (extracted_w, extracted_l) = $fextract(&final_tr.weight).expect("Fail");
+                let (extracted_w, extracted_l) = $fextract(&final_tr.weight)?;
                 if final_tr.ilabel != final_tr.olabel {
-                    panic!("Unrepresentable weight : {:?}", &final_tr);
+                    bail!("Unrepresentable weight : {:?}", &final_tr);
                 }
 
                 let new_final_tr = if final_tr.ilabel == EPS_LABEL && extracted_l != EPS_LABEL {
-- 
2.43.0


From 45888f3a241986dd9ed9af52f0182bc406b9ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:29 +0000
Subject: [PATCH 37/52] fix: sigma matcher also returns the sigma transitions
 when explicit transitions match

---
 .../compose/matchers/sigma_matcher.rs          | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 3abcd41..d65034c 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -165,6 +165,7 @@ where
     sigma_match: Option<Label>,
     matcher_iterator: Peekable<M::Iter>,
     has_sigma: bool,
+    sigma_allowed: bool,
     rewrite_both: bool,
     w: PhantomData<(W, F, B)>,
 }
@@ -202,18 +203,16 @@ where
 
         let mut find_empty = false;
         let has_sigma = has_sigma(state, &matcher, sigma_label)?;
+        let sigma_allowed = match_label != EPS_LABEL
+            && match_label != NO_LABEL
+            && is_match_label_allowed(sigma_allowed_matches, match_label);
 
         let mut matcher_iterator_match_label = matcher.iter(state, match_label)?.peekable();
         let (sigma_match, matcher_iterator) = if matcher_iterator_match_label.peek().is_some() {
             (Some(NO_LABEL), matcher_iterator_match_label)
         } else {
             let mut matcher_iterator_sigma_label = matcher.iter(state, sigma_label)?.peekable();
-            if has_sigma
-                && match_label != EPS_LABEL
-                && match_label != NO_LABEL
-                && is_match_label_allowed(sigma_allowed_matches, match_label)
-                && matcher_iterator_sigma_label.peek().is_some()
-            {
+            if has_sigma && sigma_allowed && matcher_iterator_sigma_label.peek().is_some() {
                 (Some(match_label), matcher_iterator_sigma_label)
             } else {
                 find_empty = true;
@@ -233,6 +232,7 @@ where
             sigma_match,
             matcher_iterator,
             has_sigma,
+            sigma_allowed,
             rewrite_both,
             w: PhantomData,
         })
@@ -268,11 +268,11 @@ where
     }
 
     pub fn next_openfst(&mut self) {
-        let r = self.matcher_iterator.next();
-        if r.is_none()
+        self.matcher_iterator.next();
+        if self.matcher_iterator.peek().is_none()
             && self.has_sigma
+            && self.sigma_allowed
             && self.sigma_match.unwrap() == NO_LABEL
-            && self.match_label > 0
         {
             self.matcher_iterator = self
                 .matcher
-- 
2.43.0


From cb7bb9af4598f3e4a41c705d59e449c2ae6c272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:29 +0000
Subject: [PATCH 38/52] fix: multi-epsilon matcher keeps the largest registered
 label as its upper bound

---
 rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index 4f29eaf..d0b85eb 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -311,7 +311,7 @@ impl<K: Copy + Ord> CompactSet<K> {
         if self.min_key == self.no_key || key < self.min_key {
             self.min_key = key;
         }
-        if self.max_key == self.no_key || self.max_key > key {
+        if self.max_key == self.no_key || self.max_key < key {
             self.max_key = key;
         }
     }
-- 
2.43.0


From 7f59d7dd13ac7b1a9cd7469c0dbcef64d46d078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:07 +0000
Subject: [PATCH 39/52] fix: multi-epsilon matcher continues with the
 transitions of the next registered label

---
 rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
index d0b85eb..889ed6d 100644
--- a/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/multi_eps_matcher.rs
@@ -105,7 +105,7 @@ where
                     }
                     if *pos_labels < multi_eps_labels.len() {
                         self.done = false;
-                        res
+                        matcher_iter.next()
                     } else {
                         *matcher_iter = self
                             .matcher
-- 
2.43.0


From 32ee5840da96d7b5222845b5bf779a4b092d4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:56 +0000
Subject: [PATCH 40/52] fix: report write errors when saving a cache or a
 composition state

The buffered writers were flushed by their drop only, which ignores errors:
saving to a full device reported success.
---
 rustfst/src/algorithms/compose/compose_fst_op.rs           | 4 ++++
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 3 +++
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..05dd9c3 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -3,6 +3,7 @@ use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
 use std::io::BufWriter;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +61,9 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..eacbd35 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -185,6 +185,9 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
 
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        file.flush()?;
+
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..4484785 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -196,6 +196,9 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
 
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        file.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 06408e4e54e4709d0f154825fc31f3f0b6518edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:56 +0000
Subject: [PATCH 41/52] fix: report write errors when drawing an FST

---
 rustfst/src/fst_traits/serializable_fst.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 1e332b3..d270512 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -131,6 +131,8 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        // Errors would be ignored if the flush was left to the drop of the writer.
+        f.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 3260174df04bda2bcff8ffde38e20baa58ce2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:06 +0000
Subject: [PATCH 42/52] hook: lock scheduling points behind cfg(rustfst_mc)

With --cfg rustfst_mc the caches and state tables use a stand-in for
std::sync::Mutex that reports lock acquisitions to a model checker. Without
the flag nothing changes.
---
 rustfst/src/algorithms/determinize/mod.rs     |  6 ++
 .../src/algorithms/determinize/state_table.rs |  3 +
 .../algorithms/factor_weight/state_table.rs   |  3 +
 .../src/algorithms/lazy/cache/first_cache.rs  |  3 +
 .../lazy/cache/simple_hash_map_cache.rs       |  3 +
 .../algorithms/lazy/cache/simple_vec_cache.rs |  3 +
 rustfst/src/algorithms/lazy/state_table.rs    |  3 +
 rustfst/src/lib.rs                            |  6 ++
 rustfst/src/mc_sync.rs                        | 95 +++++++++++++++++++
 9 files changed, 125 insertions(+)
 create mode 100644 rustfst/src/mc_sync.rs

diff --git a/rustfst/src/algorithms/determinize/mod.rs b/rustfst/src/algorithms/determinize/mod.rs
index 56de28a..69a90e0 100644
--- a/rustfst/src/algorithms/determinize/mod.rs
+++ b/rustfst/src/algorithms/determinize/mod.rs
@@ -7,6 +7,12 @@ use divisors::{DefaultCommonDivisor, GallicCommonDivisor};
 use element::{DeterminizeElement, DeterminizeStateTuple, DeterminizeTr, WeightedSubset};
 use state_table::DeterminizeStateTable;
 
+#[cfg(rustfst_mc)]
+#[doc(hidden)]
+pub mod mc_hooks {
+    pub use super::{determinize_fsa::DeterminizeFsa, divisors::DefaultCommonDivisor};
+}
+
 mod determinize_fsa;
 mod determinize_fsa_op;
 mod determinize_static;
diff --git a/rustfst/src/algorithms/determinize/state_table.rs b/rustfst/src/algorithms/determinize/state_table.rs
index f972472..76d5592 100644
--- a/rustfst/src/algorithms/determinize/state_table.rs
+++ b/rustfst/src/algorithms/determinize/state_table.rs
@@ -1,5 +1,8 @@
 use std::borrow::Borrow;
 use std::fmt;
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 use bimap::BiHashMap;
diff --git a/rustfst/src/algorithms/factor_weight/state_table.rs b/rustfst/src/algorithms/factor_weight/state_table.rs
index 1569482..b65b6e5 100644
--- a/rustfst/src/algorithms/factor_weight/state_table.rs
+++ b/rustfst/src/algorithms/factor_weight/state_table.rs
@@ -1,4 +1,7 @@
 use std::collections::HashMap;
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 use bimap::BiHashMap;
diff --git a/rustfst/src/algorithms/lazy/cache/first_cache.rs b/rustfst/src/algorithms/lazy/cache/first_cache.rs
index 04e2a51..62e656e 100644
--- a/rustfst/src/algorithms/lazy/cache/first_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/first_cache.rs
@@ -1,5 +1,8 @@
 use crate::algorithms::lazy::{CacheStatus, FstCache};
 use crate::{Semiring, StateId, Trs, TrsVec};
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 #[derive(Debug)]
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index eacbd35..c0c4ae3 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -3,6 +3,9 @@ use std::fs::{read, File};
 use std::io::BufWriter;
 use std::io::Write;
 use std::path::Path;
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 use crate::parsers::nom_utils::NomCustomError;
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 4484785..f7d874b 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -2,6 +2,9 @@ use std::fs::{read, File};
 use std::io::BufWriter;
 use std::io::Write;
 use std::path::Path;
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 use crate::parsers::nom_utils::NomCustomError;
diff --git a/rustfst/src/algorithms/lazy/state_table.rs b/rustfst/src/algorithms/lazy/state_table.rs
index a520294..8fdf7d3 100644
--- a/rustfst/src/algorithms/lazy/state_table.rs
+++ b/rustfst/src/algorithms/lazy/state_table.rs
@@ -1,5 +1,8 @@
 use std::fmt;
 use std::hash::Hash;
+#[cfg(rustfst_mc)]
+use crate::mc_sync::Mutex;
+#[cfg(not(rustfst_mc))]
 use std::sync::Mutex;
 
 use crate::StateId;
diff --git a/rustfst/src/lib.rs b/rustfst/src/lib.rs
index e939962..022f1d2 100644
--- a/rustfst/src/lib.rs
+++ b/rustfst/src/lib.rs
@@ -186,6 +186,8 @@
 //! - Symbol IDs are also unsigned and 32-bits, with [`NO_LABEL`] used
 //!   for a missing value.
 //! - Floating-point weights are not generic, so are always single-precision.
+// `rustfst_mc` guards the hooks used for model checking.
+#![allow(unexpected_cfgs)]
 
 #[warn(missing_docs)]
 #[cfg(test)]
@@ -218,6 +220,10 @@ mod tests_openfst;
 
 mod symbol_table;
 
+#[cfg(rustfst_mc)]
+#[doc(hidden)]
+pub mod mc_sync;
+
 /// Type used for the input label and output label of a transition in a wFST -> usize
 #[cfg(feature = "state-label-u32")]
 pub type Label = u32;
diff --git a/rustfst/src/mc_sync.rs b/rustfst/src/mc_sync.rs
new file mode 100644
index 0000000..e8ce94f
--- /dev/null
+++ b/rustfst/src/mc_sync.rs
@@ -0,0 +1,95 @@
+//! Model-checking hook, compiled only with `--cfg rustfst_mc`: a stand-in for `std::sync::Mutex`
+//! that tells a scheduler installed for the current thread about lock acquisitions and releases.
+//! Without a scheduler it behaves like the standard mutex.
+use std::cell::Cell;
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, PoisonError};
+
+/// Decides when a thread may acquire a lock.
+pub trait Scheduler {
+    /// Called before the lock is acquired; returns once the caller may take it.
+    fn lock(&self, mutex: usize);
+    /// Called after the lock was released.
+    fn unlock(&self, mutex: usize);
+}
+
+thread_local! {
+    static SCHEDULER: Cell<Option<&'static dyn Scheduler>> = const { Cell::new(None) };
+}
+
+/// Installs (or removes) the scheduler of the current thread.
+pub fn set_scheduler(scheduler: Option<&'static dyn Scheduler>) {
+    SCHEDULER.with(|s| s.set(scheduler));
+}
+
+#[derive(Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(std::sync::Mutex::new(value))
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let id = self as *const Self as usize;
+        let scheduler = SCHEDULER.with(|s| s.get());
+        if let Some(s) = scheduler {
+            s.lock(id);
+        }
+        let wrap = |guard| MutexGuard {
+            guard: Some(guard),
+            id,
+            scheduler,
+        };
+        match self.0.lock() {
+            Ok(g) => Ok(wrap(g)),
+            Err(e) => Err(PoisonError::new(wrap(e.into_inner()))),
+        }
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    id: usize,
+    scheduler: Option<&'static dyn Scheduler>,
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.deref().fmt(f)
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        drop(self.guard.take());
+        if let Some(s) = self.scheduler {
+            s.unlock(self.id);
+        }
+    }
+}
-- 
2.43.0


From 45178161b36dd88f3df15a88ac3c7f6533600188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:43 +0000
Subject: [PATCH 43/52] fix: C iterators report unknown states and wrong
 machine kinds instead of returning OK

---
 rustfst-ffi/src/iterators.rs | 49 +++++++++++++++---------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 6130cfd..2f7eb4a 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -1,8 +1,9 @@
-use crate::fst::{CFst, CVecFst};
+use crate::fst::{as_fst, as_mut_fst, CFst};
 use crate::tr::CTr;
 use crate::{get, get_mut, wrap, CStateId, RUSTFST_FFI_RESULT};
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use ffi_convert::*;
+use rustfst::fst_impls::VectorFst;
 use rustfst::fst_traits::MutableFst;
 use rustfst::prelude::{StateIterator, Tr, TropicalWeight, TrsVec};
 use rustfst::trs_iter_mut::TrsIterMut;
@@ -44,20 +45,14 @@ pub struct CTrsIterator(pub(crate) TrsIterator);
 pub unsafe extern "C" fn trs_iterator_new(
     fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CTrsIterator,
+    iter_ptr: *mut *const CTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst_ptr);
-        fst.fst_get_trs(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = TrsIterator { trs, index: 0 };
-                    CTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
+        let trs = fst.fst_get_trs(state_id)?;
+        let trs_iterator = TrsIterator { trs, index: 0 };
+        let raw_ptr = CTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
 
         Ok(())
     })
@@ -195,22 +190,17 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CMutTrsIterator,
+    iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CVecFst, fst_ptr);
-        fst.tr_iter_mut(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = MutTrsIterator { trs, index: 0 };
-                    CMutTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
+        let fst = get_mut!(CFst, fst_ptr);
+        let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
+        let trs = vec_fst.tr_iter_mut(state_id)?;
+        let trs_iterator = MutTrsIterator { trs, index: 0 };
+        let raw_ptr = CMutTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
 
         Ok(())
     })
@@ -326,12 +316,13 @@ pub struct CStateIterator(pub(crate) Peekable<Range<CStateId>>);
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn state_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     iter_ptr: *mut *const CStateIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get!(CVecFst, fst_ptr);
-        let state_iter = fst.states_iter().peekable();
+        let fst = get!(CFst, fst_ptr);
+        let vec_fst = as_fst!(VectorFst<TropicalWeight>, fst);
+        let state_iter = vec_fst.states_iter().peekable();
         let raw_ptr = CStateIterator(state_iter).into_raw_pointer();
         unsafe { *iter_ptr = raw_ptr };
         Ok(())
-- 
2.43.0


From a0941796806def77c00f01ce22cc980dfc43009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 44/52] fix: removing a transition past the end of a list is an
 error status, not an abort

---
 rustfst-ffi/src/trs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst-ffi/src/trs.rs b/rustfst-ffi/src/trs.rs
index c5603fa..68a4efa 100644
--- a/rustfst-ffi/src/trs.rs
+++ b/rustfst-ffi/src/trs.rs
@@ -2,7 +2,7 @@ use crate::tr::CTr;
 use crate::{get, get_mut, wrap, RUSTFST_FFI_RESULT};
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use ffi_convert::*;
 use rustfst::prelude::TrsVec;
 use rustfst::semirings::TropicalWeight;
@@ -35,6 +35,9 @@ pub unsafe extern "C" fn trs_vec_remove(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs = get_mut!(CTrs, trs);
+        if index >= trs.len() {
+            bail!("Index {} out of range: {} transitions", index, trs.len());
+        }
         let removed_tr = trs.remove(index);
         let ctr = Box::into_raw(Box::new(CTr::c_repr_of(removed_tr)?));
         unsafe { *removed_tr_ptr = ctr };
-- 
2.43.0


From 1a4106e974d95895eb619eaa2059fb162cc399d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 45/52] fix: C transition iterators stay done when advanced
 past the end

---
 rustfst-ffi/src/iterators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 2f7eb4a..66d4210 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -18,7 +18,7 @@ pub struct TrsIterator {
 
 impl TrsIterator {
     fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     fn reset(&mut self) {
@@ -134,7 +134,7 @@ pub struct MutTrsIterator<'a> {
 
 impl<'a> MutTrsIterator<'a> {
     pub fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     pub fn next(&mut self) {
-- 
2.43.0


From 058c59047681393d7d977e057fb1346d864544a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 46/52] fix: the command-line tool exits with an error status
 when a command fails

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From aa0cb3e5c57831cfab5fef4d6d1383c09d05e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 47/52] fix: command-line benchmarks run only when --bench is
 given

---
 rustfst-cli/src/binary_fst_algorithm.rs | 2 +-
 rustfst-cli/src/main.rs                 | 2 +-
 rustfst-cli/src/unary_fst_algorithm.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst-cli/src/binary_fst_algorithm.rs b/rustfst-cli/src/binary_fst_algorithm.rs
index c7c5835..6298139 100644
--- a/rustfst-cli/src/binary_fst_algorithm.rs
+++ b/rustfst-cli/src/binary_fst_algorithm.rs
@@ -46,7 +46,7 @@ pub trait BinaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 3bf5b98..d9274da 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -364,7 +364,7 @@ fn two_in_one_out_options(command: Command) -> clap::Command {
         Arg::new("bench")
             .long("bench")
             .help("Whether to run multiple times the algorithm in order to have a reliable time measurement.")
-            .action(ArgAction::Set)
+            .action(ArgAction::SetTrue)
     ).arg(
         Arg::new("n_iters")
             .long("n_iters")
diff --git a/rustfst-cli/src/unary_fst_algorithm.rs b/rustfst-cli/src/unary_fst_algorithm.rs
index 5abd77a..e5a4797 100644
--- a/rustfst-cli/src/unary_fst_algorithm.rs
+++ b/rustfst-cli/src/unary_fst_algorithm.rs
@@ -38,7 +38,7 @@ pub trait UnaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
-- 
2.43.0


From cd83c2cfb33ce000a8c4b38e4baf6a2de18494ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:39 +0000
Subject: [PATCH 48/52] fix: python: start() and final() return None when there
 is no start state or the state is not final

---
 rustfst-python/rustfst/fst/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..627a8dd 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -31,7 +31,7 @@ class Fst:
         err_msg = "Error getting start state"
         check_ffi_error(ret_code, err_msg)
 
-        if start is None:
+        if not self.is_start(start.value):
             return None
         return int(start.value)
 
@@ -52,7 +52,7 @@ class Fst:
         err_msg = "Error getting final weight"
         check_ffi_error(ret_code, err_msg)
 
-        if weight is None:
+        if not self.is_final(state.value):
             return None
 
         return weight.value
-- 
2.43.0


From 884bdc030efdbdf94f6a0623a6459450f7211cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:39 +0000
Subject: [PATCH 49/52] fix: python: top_sort and rm_epsilon return the machine
 they modified in place

---
 rustfst-python/rustfst/algorithms/rm_epsilon.py | 6 ++----
 rustfst-python/rustfst/algorithms/top_sort.py   | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/rm_epsilon.py b/rustfst-python/rustfst/algorithms/rm_epsilon.py
index 9738689..48372d2 100644
--- a/rustfst-python/rustfst/algorithms/rm_epsilon.py
+++ b/rustfst-python/rustfst/algorithms/rm_epsilon.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -16,9 +15,8 @@ def rm_epsilon(fst: VectorFst):
     :return: Fst
     """
 
-    rm_epsilon_fst = ctypes.c_void_p()
-    ret_code = lib.fst_rm_epsilon(fst.ptr, ctypes.byref(rm_epsilon_fst))
+    ret_code = lib.fst_rm_epsilon(fst.ptr)
     err_msg = "Error during rm_epsilon"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=rm_epsilon_fst)
+    return fst
diff --git a/rustfst-python/rustfst/algorithms/top_sort.py b/rustfst-python/rustfst/algorithms/top_sort.py
index cdbf1c3..e2ef788 100644
--- a/rustfst-python/rustfst/algorithms/top_sort.py
+++ b/rustfst-python/rustfst/algorithms/top_sort.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -28,9 +27,8 @@ def top_sort(fst: VectorFst) -> VectorFst:
         Equivalent top sorted Fst. Modification also happens in-place.
     """
 
-    top_sorted_fst = ctypes.c_void_p()
-    ret_code = lib.fst_top_sort(fst.ptr, ctypes.byref(top_sorted_fst))
+    ret_code = lib.fst_top_sort(fst.ptr)
     err_msg = "Error during top_sort"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=top_sorted_fst)
+    return fst
-- 
2.43.0


From 32998d2dd103959789fd5e127a7dfee4e4f220bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:39 +0000
Subject: [PATCH 50/52] fix: python: Trs.shallow_clone passes the address of
 its result pointer

---
 rustfst-python/rustfst/trs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-python/rustfst/trs.py b/rustfst-python/rustfst/trs.py
index f9ee386..91a3808 100755
--- a/rustfst-python/rustfst/trs.py
+++ b/rustfst-python/rustfst/trs.py
@@ -57,7 +57,7 @@ class Trs:
 
     def shallow_clone(self) -> Trs:
         new_trs_ptr = c_void_p()
-        exit_code = lib.trs_vec_shallow_clone(self._ptr, new_trs_ptr)
+        exit_code = lib.trs_vec_shallow_clone(self._ptr, byref(new_trs_ptr))
         err_msg = "Something went wrong when cloning Trs"
         check_ffi_error(exit_code, err_msg)
 
-- 
2.43.0


From ab4e5064000379824feb7d1282dd973c282a0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 51/52] fix: a delayed machine without start state keeps its
 symbol tables when computed

---
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 9167e72..3ed077d 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -229,6 +229,12 @@ where
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -258,12 +264,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From 2fa60786469622f6655ff0cf9ea8a402eb27e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 52/52] fix: invert exchanges the symbol tables and project
 copies the kept side's table

---
 rustfst/src/algorithms/inversion.rs  | 8 ++++++++
 rustfst/src/algorithms/projection.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rustfst/src/algorithms/inversion.rs b/rustfst/src/algorithms/inversion.rs
index 169d25a..e3e8ccb 100644
--- a/rustfst/src/algorithms/inversion.rs
+++ b/rustfst/src/algorithms/inversion.rs
@@ -31,6 +31,14 @@ use crate::semirings::Semiring;
 ///
 pub fn invert<W: Semiring, F: MutableFst<W>>(fst: &mut F) {
     let props = fst.properties();
+    let isymt = fst.take_input_symbols();
+    let osymt = fst.take_output_symbols();
+    if let Some(symt) = osymt {
+        fst.set_input_symbols(symt);
+    }
+    if let Some(symt) = isymt {
+        fst.set_output_symbols(symt);
+    }
 
     for state in fst.states_range() {
         unsafe {
diff --git a/rustfst/src/algorithms/projection.rs b/rustfst/src/algorithms/projection.rs
index 3041524..0c7a992 100644
--- a/rustfst/src/algorithms/projection.rs
+++ b/rustfst/src/algorithms/projection.rs
@@ -66,6 +66,10 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
     let props = fst.properties();
     match project_type {
         ProjectType::ProjectInput => {
+            match fst.input_symbols().cloned() {
+                Some(symt) => fst.set_output_symbols(symt),
+                None => drop(fst.take_output_symbols()),
+            }
             for state in fst.states_range() {
                 let mut it_trs = unsafe { fst.tr_iter_unchecked_mut(state) };
                 for idx_tr in 0..it_trs.len() {
@@ -76,6 +80,10 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
             }
         }
         ProjectType::ProjectOutput => {
+            match fst.output_symbols().cloned() {
+                Some(symt) => fst.set_input_symbols(symt),
+                None => drop(fst.take_input_symbols()),
+            }
             for state in fst.states_range() {
                 let mut it_trs = unsafe { fst.tr_iter_unchecked_mut(state) };
                 for idx_tr in 0..it_trs.len() {
-- 
2.43.0

