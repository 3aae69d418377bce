From bcd76c650d696939095a57ebc65dce2d7e389b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 01/10] fix: cache learned parameters per node and parent set

---
 .../constraint_based_algorithm.rs             | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/structure_learning/constraint_based_algorithm.rs b/src/structure_learning/constraint_based_algorithm.rs
index 84683bc..041dc06 100644
--- a/src/structure_learning/constraint_based_algorithm.rs
+++ b/src/structure_learning/constraint_based_algorithm.rs
@@ -16,8 +16,8 @@ use crate::tools::Dataset;
 
 pub struct Cache<'a, P: ParameterLearning> {
     parameter_learning: &'a P,
-    cache_persistent_small: HashMap<Option<BTreeSet<usize>>, Params>,
-    cache_persistent_big: HashMap<Option<BTreeSet<usize>>, Params>,
+    cache_persistent_small: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
+    cache_persistent_big: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
     parent_set_size_small: usize,
 }
 
@@ -48,30 +48,31 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
             self.parent_set_size_small += 1;
         }
 
+        // The parameters depend on both the node and its parent set.
+        let key = (node, parent_set);
         if parent_set_len > self.parent_set_size_small {
-            match self.cache_persistent_big.get(&parent_set) {
+            match self.cache_persistent_big.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
                 None => {
                     let params =
                         self.parameter_learning
-                            .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_big.insert(parent_set, params.clone());
+                            .fit(net, dataset, node, key.1.clone());
+                    self.cache_persistent_big.insert(key, params.clone());
                     params
                 }
             }
         } else {
-            match self.cache_persistent_small.get(&parent_set) {
+            match self.cache_persistent_small.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
                 None => {
                     let params =
                         self.parameter_learning
-                            .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_small
-                        .insert(parent_set, params.clone());
+                            .fit(net, dataset, node, key.1.clone());
+                    self.cache_persistent_small.insert(key, params.clone());
                     params
                 }
             }
-- 
2.43.0


From ce5d4ba13db7b8e93a3a655ea40a31d129505873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 02/10] fix: chi-squared test ignores transitions that were
 never observed

---
 src/structure_learning/hypothesis_test.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 311ec47..317f6bc 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -200,6 +200,8 @@ impl ChiSquare {
         };
         let L = 1.0 / &K;
         let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
+        // Transitions (or whole rows) without observations give 0/0: they carry no evidence.
+        X_2.mapv_inplace(|x| if x.is_nan() { 0.0 } else { x });
         X_2.diag_mut().fill(0.0);
         let X_2 = X_2.sum_axis(Axis(1));
         let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
-- 
2.43.0


From 48938b16c2b781254f36fb6486d0ee38b9782b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 03/10] fix: F test does not panic on states without observed
 transitions

---
 src/structure_learning/hypothesis_test.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 317f6bc..609b07e 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -91,6 +91,10 @@ impl F {
         let q1 = cim_1.diag();
         let q2 = cim_2.diag();
         for idx in 0..r1.shape()[0] {
+            // The F distribution is not defined without transitions: there is nothing to compare.
+            if r1[idx] == 0.0 || r2[idx] == 0.0 {
+                continue;
+            }
             let s = q2[idx] / q1[idx];
             let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
             let s = F.cdf(s);
-- 
2.43.0


From a67137578f67f350565f62267797c31bc96eb21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 04/10] fix: next state is never one with zero intensity nor
 outside the domain

---
 src/params.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..ec2b092 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,19 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // The first reachable state whose cumulative probability is not smaller than the
+                // draw; the last reachable one if rounding keeps the total below the draw.
+                let mut next_state = state;
+                let mut cumulative = 0.0;
+                for (idx, rate) in cim.slice(s![u, state, ..]).indexed_iter() {
+                    if idx != state && rate > &0.0 {
+                        next_state = idx;
+                        cumulative += rate / lambda;
+                        if cumulative >= urand {
+                            break;
                         }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    }
+                }
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From 9c9468288014b1023c74e080ffe886e8c717310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 05/10] fix: validation rejects negative intensities and values
 that are not numbers

---
 src/params.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index ec2b092..e213c5b 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -298,7 +298,7 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
-            .any(|x| x.diag().iter().any(|x| x >= &0.0))
+            .any(|x| x.diag().iter().any(|x| !(x < &0.0)))
         {
             warn!(
                 "The diagonal of each cim for node {} must be non-positive",
@@ -309,11 +309,25 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if each intensity outside the diagonal is non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, i, j), x)| i != j && !(x >= &0.0))
+        {
+            warn!(
+                "The intensities outside the diagonal for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The intensities outside the diagonal must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
             .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
+            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))
         {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
-- 
2.43.0


From 8b17492c248696db192cd006e8c7f93775a27d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 06/10] fix: parameters of a node are discarded together with
 its incoming edges

---
 src/process/ctbn.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..c138579 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -72,6 +72,18 @@ impl CtbnNetwork {
         }
     }
 
+    /// Reset the parameters of each node that has parents. They are no longer valid when the
+    /// edges are removed.
+    fn reset_params_with_parents(&mut self) {
+        if let Some(adj_matrix) = &self.adj_matrix {
+            for (idx, node) in self.nodes.iter_mut().enumerate() {
+                if adj_matrix.column(idx).iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
+
     ///Transform the **CTBN** into a **CTMP**
     ///
     /// # Return
@@ -168,6 +180,7 @@ impl CtbnNetwork {
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.reset_params_with_parents();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,6 +188,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
+        self.reset_params_with_parents();
         self.adj_matrix = Option::None;
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
-- 
2.43.0


From 00be0a9e346fbc7c2b6959a4289c6cd3780ee324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 07/10] fix: instantaneous reward is earned in the state left
 by a transition

---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..0a8b79c 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,11 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // The time up to the transition is spent in the previous state.
+                    ret += discount
+                        * reward_function
+                            .call(&previous.state, None)
+                            .instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From 7a84f65123b7b2ae07c51690151cba3d1b2ca26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 08/10] Revert "fix: F test does not panic on states without
 observed transitions"

This reverts commit 48938b16c2b781254f36fb6486d0ee38b9782b9b.
---
 src/structure_learning/hypothesis_test.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 609b07e..317f6bc 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -91,10 +91,6 @@ impl F {
         let q1 = cim_1.diag();
         let q2 = cim_2.diag();
         for idx in 0..r1.shape()[0] {
-            // The F distribution is not defined without transitions: there is nothing to compare.
-            if r1[idx] == 0.0 || r2[idx] == 0.0 {
-                continue;
-            }
             let s = q2[idx] / q1[idx];
             let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
             let s = F.cdf(s);
-- 
2.43.0


From c2d8fe8474d70fb95734051820ef480a17f6d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 09/10] Revert "fix: chi-squared test ignores transitions that
 were never observed"

This reverts commit ce5d4ba13db7b8e93a3a655ea40a31d129505873.
---
 src/structure_learning/hypothesis_test.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 317f6bc..311ec47 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -200,8 +200,6 @@ impl ChiSquare {
         };
         let L = 1.0 / &K;
         let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
-        // Transitions (or whole rows) without observations give 0/0: they carry no evidence.
-        X_2.mapv_inplace(|x| if x.is_nan() { 0.0 } else { x });
         X_2.diag_mut().fill(0.0);
         let X_2 = X_2.sum_axis(Axis(1));
         let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
-- 
2.43.0


From bcad6075d8098dfe0fe887009cafd607260f11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 10/10] fix: hill climbing does not accept changes that do not
 improve the score

---
 src/structure_learning/score_based_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure_learning/score_based_algorithm.rs b/src/structure_learning/score_based_algorithm.rs
index b535a58..94dd126 100644
--- a/src/structure_learning/score_based_algorithm.rs
+++ b/src/structure_learning/score_based_algorithm.rs
@@ -248,8 +248,8 @@ impl<S: ScoreFunction> StructuralLearningAlgorithm for HillClimbing<S> {
                     }
                     //Compute the score with the modified parent_set.
                     let tmp_score = self.score_function.call(&net, node, &parent_set, dataset);
-                    //If tmp_score is worst than current_score revert the change to the parent set
-                    if tmp_score < current_score {
+                    //If tmp_score does not improve current_score revert the change to the parent set
+                    if tmp_score <= current_score {
                         if is_removed {
                             parent_set.insert(parent);
                         } else {
-- 
2.43.0

