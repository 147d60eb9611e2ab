From 7f2d3554d9a0c1d44f628c7209852b3c5e056db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 01/10] fix: never sample a transition with null intensity

get_random_state mapped the number of skipped positive intensities to a state
index, so any zero off-diagonal entry before the selected one shifted the
result onto a state which cannot be reached from the current one.
---
 src/params.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..22a8885 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,22 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
-                        }
+                // States with a null intensity (and the current state itself) are never selected.
+                let next_state = cim
+                    .slice(s![u, state, ..])
+                    .map(|x| x / lambda)
+                    .iter()
+                    .enumerate()
+                    .fold((state, 0.0), |mut acc, (idx, ele)| {
                         if ele > &0.0 {
+                            if acc.1 <= urand {
+                                acc.0 = idx;
+                            }
                             acc.1 += ele;
                         }
                         acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    })
+                    .0;
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From 9c8db081ace26b1f921cf73f8458775244bb0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 02/10] fix: accrue the instantaneous reward of the state
 actually occupied

MonteCarloReward multiplied the time spent in the previous state by the
instantaneous reward of the state reached at the end of that interval.
---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..4528947 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,11 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // Between the two samples the process stays in the previous state.
+                    ret += discount
+                        * reward_function
+                            .call(&previous.state, None)
+                            .instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From 2f943abd0c3939149268cdba0dfccee500aa8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 03/10] fix: reject CIMs with negative or non-finite
 intensities

validate_params only looked at the sign of the diagonal and at the row sums
with comparisons which are false for NaN, so matrices holding NaN, infinities
or negative transition intensities were accepted as valid parameters.
---
 src/params.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index 22a8885..18f4ae0 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -301,7 +301,7 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
-            .any(|x| x.diag().iter().any(|x| x >= &0.0))
+            .any(|x| x.diag().iter().any(|x| !(x < &0.0) || x.is_infinite()))
         {
             warn!(
                 "The diagonal of each cim for node {} must be non-positive",
@@ -312,6 +312,20 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if each intensity outside the diagonal is non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, row, col), x)| row != col && !(x >= &0.0))
+        {
+            warn!(
+                "The off-diagonal elements of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The off-diagonal elements of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
-- 
2.43.0


From 8816313c1fcc21b8055a360d9843ad39c9cd1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 04/10] fix: scale the row sum tolerance of validate_params
 with the intensities

With the absolute tolerance, rounding errors alone made validate_params refuse
the CIMs of UniformParametersGenerator and made amalgamation panic for
intensities of about 1e8 and above.
---
 src/params.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 18f4ae0..44bddad 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -326,12 +326,11 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
-        // Check if each row sum up to 0
-        if cim
-            .sum_axis(Axis(2))
-            .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
-        {
+        // Check if each row sum up to 0. The rounding error of the sum grows with the intensities of
+        // the row.
+        if cim.sum_axis(Axis(2)).indexed_iter().any(|((u, row), x)| {
+            f64::abs(x.clone()) > f64::EPSILON.sqrt() * f64::abs(cim[[u, row, row]]).max(1.0)
+        }) {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
                 self.get_label()
-- 
2.43.0


From 3efb991b02cf14f3e161cacca2cbf36c29e98968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 05/10] fix: distinguish the nodes in the parameters cache

Cache::fit keyed the learned parameters by parent set only, so fitting a second
node with an already seen parent set returned the parameters of the first one.
---
 .../constraint_based_algorithm.rs             | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/structure_learning/constraint_based_algorithm.rs b/src/structure_learning/constraint_based_algorithm.rs
index 84683bc..8958981 100644
--- a/src/structure_learning/constraint_based_algorithm.rs
+++ b/src/structure_learning/constraint_based_algorithm.rs
@@ -16,8 +16,8 @@ use crate::tools::Dataset;
 
 pub struct Cache<'a, P: ParameterLearning> {
     parameter_learning: &'a P,
-    cache_persistent_small: HashMap<Option<BTreeSet<usize>>, Params>,
-    cache_persistent_big: HashMap<Option<BTreeSet<usize>>, Params>,
+    cache_persistent_small: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
+    cache_persistent_big: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
     parent_set_size_small: usize,
 }
 
@@ -38,6 +38,8 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
         parent_set: Option<BTreeSet<usize>>,
     ) -> Params {
         let parent_set_len = parent_set.as_ref().unwrap().len();
+        // The same parent set can be used for different nodes.
+        let key = (node, parent_set);
         if parent_set_len > self.parent_set_size_small + 1 {
             //self.cache_persistent_small = self.cache_persistent_big;
             mem::swap(
@@ -49,29 +51,28 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
         }
 
         if parent_set_len > self.parent_set_size_small {
-            match self.cache_persistent_big.get(&parent_set) {
+            match self.cache_persistent_big.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
                 None => {
                     let params =
                         self.parameter_learning
-                            .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_big.insert(parent_set, params.clone());
+                            .fit(net, dataset, node, key.1.clone());
+                    self.cache_persistent_big.insert(key, params.clone());
                     params
                 }
             }
         } else {
-            match self.cache_persistent_small.get(&parent_set) {
+            match self.cache_persistent_small.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
                 None => {
                     let params =
                         self.parameter_learning
-                            .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_small
-                        .insert(parent_set, params.clone());
+                            .fit(net, dataset, node, key.1.clone());
+                    self.cache_persistent_small.insert(key, params.clone());
                     params
                 }
             }
-- 
2.43.0


From bcd8c5361c646e8c31402909081552424a418cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 06/10] fix: reset the parameters of the nodes whose edges are
 removed

initialize_adj_matrix and add_node dropped every edge but kept the CIMs of the
children, e.g. structure learning returned networks in which a node without
parents still had the CIMs of its old parent set.
---
 src/process/ctbn.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..5b3da27 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -160,6 +160,18 @@ impl CtbnNetwork {
 
         return array_state;
     }
+    /// Remove all the edges. The parameters of a node depend on its parent set, hence the ones of
+    /// the nodes which lose their parents are reset.
+    fn remove_edges(&mut self) {
+        if let Some(network) = self.adj_matrix.take() {
+            for (idx, node) in self.nodes.iter_mut().enumerate() {
+                if network.column(idx).iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
+
     /// Get the Adjacency Matrix.
     pub fn get_adj_matrix(&self) -> Option<&Array2<u16>> {
         self.adj_matrix.as_ref()
@@ -168,6 +180,7 @@ impl CtbnNetwork {
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.remove_edges();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,7 +188,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
-        self.adj_matrix = Option::None;
+        self.remove_edges();
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
     }
-- 
2.43.0


From 903d71303707e78fc7782941a03b1d3dac722a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 07/10] fix: do not accept ties in the hill climbing

With tied scores the search could stop in a parent set which is not a
local optimum: a tie accepted in the last iteration invalidates the
moves already rejected in the same iteration.
---
 src/structure_learning/score_based_algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure_learning/score_based_algorithm.rs b/src/structure_learning/score_based_algorithm.rs
index b535a58..b9758bf 100644
--- a/src/structure_learning/score_based_algorithm.rs
+++ b/src/structure_learning/score_based_algorithm.rs
@@ -248,8 +248,9 @@ impl<S: ScoreFunction> StructuralLearningAlgorithm for HillClimbing<S> {
                     }
                     //Compute the score with the modified parent_set.
                     let tmp_score = self.score_function.call(&net, node, &parent_set, dataset);
-                    //If tmp_score is worst than current_score revert the change to the parent set
-                    if tmp_score < current_score {
+                    //If tmp_score is not better than current_score revert the change to the parent
+                    //set: accepting a tie would skip the moves already rejected in this iteration.
+                    if tmp_score <= current_score {
                         if is_removed {
                             parent_set.insert(parent);
                         } else {
-- 
2.43.0


From 21addd107e38c3e0b5a69550291dce5e0bee5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 08/10] fix: hill climbing stops at once when the empty parent
 set scores minus infinity

---
 src/structure_learning/score_based_algorithm.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/structure_learning/score_based_algorithm.rs b/src/structure_learning/score_based_algorithm.rs
index b9758bf..a9fd4df 100644
--- a/src/structure_learning/score_based_algorithm.rs
+++ b/src/structure_learning/score_based_algorithm.rs
@@ -228,12 +228,11 @@ impl<S: ScoreFunction> StructuralLearningAlgorithm for HillClimbing<S> {
             let mut parent_set: BTreeSet<usize> = BTreeSet::new();
             //Compute the score for the empty parent set
             let mut current_score = self.score_function.call(&net, node, &parent_set, dataset);
-            //Set the old score to -\infty.
-            let mut old_score = f64::NEG_INFINITY;
+            //The score of the empty parent set can be -\infty: it says nothing about the convergence.
+            let mut improved = true;
             //Iterate until convergence
-            while current_score > old_score {
-                //Save the current_score.
-                old_score = current_score;
+            while improved {
+                improved = false;
                 //Iterate over each node.
                 for parent in net.get_node_indices() {
                     //Continue if the parent and the node are the same.
@@ -250,7 +249,7 @@ impl<S: ScoreFunction> StructuralLearningAlgorithm for HillClimbing<S> {
                     let tmp_score = self.score_function.call(&net, node, &parent_set, dataset);
                     //If tmp_score is not better than current_score revert the change to the parent
                     //set: accepting a tie would skip the moves already rejected in this iteration.
-                    if tmp_score <= current_score {
+                    if !(tmp_score > current_score) {
                         if is_removed {
                             parent_set.insert(parent);
                         } else {
@@ -260,6 +259,7 @@ impl<S: ScoreFunction> StructuralLearningAlgorithm for HillClimbing<S> {
                     //Otherwise save the computed score as current_score
                     else {
                         current_score = tmp_score;
+                        improved = true;
                     }
                 }
             }
-- 
2.43.0


From ad9f99eba7deb7f88becba309c9d4ce567b35b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 09/10] fix: keep the precision of the discounted reward for
 small discount factors

The difference of two exponentials close to one, divided by a small discount
factor, loses all its digits (a factor of 1e-17 gave a reward of zero).
---
 src/reward/reward_evaluation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 4528947..3e74034 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -203,8 +203,9 @@ impl RewardEvaluation for MonteCarloReward {
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => self.end_time - previous.t,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * self.end_time))
+                            // The difference of the exponentials would cancel for small factors.
+                            std::f64::consts::E.powf(-discount_factor * previous.t)
+                                * -f64::exp_m1(-discount_factor * (self.end_time - previous.t))
                                 / discount_factor
                         }
                     };
@@ -214,8 +215,8 @@ impl RewardEvaluation for MonteCarloReward {
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => current.t - previous.t,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * current.t))
+                            std::f64::consts::E.powf(-discount_factor * previous.t)
+                                * -f64::exp_m1(-discount_factor * (current.t - previous.t))
                                 / discount_factor
                         }
                     };
-- 
2.43.0


From df3a7c4db2aa747313bf54083d4378398ed04af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 10/10] fix: estimate the variance of the early stopping rule
 without cancellation

With a mean of 1e8 standard deviations and more, the difference of the two
averages was rounding noise, or negative, and the rule stopped too early or
never.
---
 src/reward/reward_evaluation.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 3e74034..20c28f9 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -184,7 +184,7 @@ impl RewardEvaluation for MonteCarloReward {
 
         // Initialize the variable required to perform early stopping hypotesis test
         let mut expected_value = 0.0;
-        let mut squared_expected_value = 0.0;
+        let mut squared_deviations = 0.0;
         let normal = statrs::distribution::Normal::new(0.0, 1.0).unwrap();
 
         // Generate and evaluate tranjectories util max_iteration is reached or early stopping rule
@@ -237,14 +237,12 @@ impl RewardEvaluation for MonteCarloReward {
 
             // Evaluate the early stopping hypothesis test .
             let float_i = i as f64;
-            expected_value =
-                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
-            squared_expected_value = squared_expected_value * float_i as f64 / (float_i + 1.0)
-                + ret.powi(2) / (float_i + 1.0);
+            let deviation = ret - expected_value;
+            expected_value += deviation / (float_i + 1.0);
+            squared_deviations += deviation * (ret - expected_value);
 
             if i > 2 {
-                let var =
-                    (float_i + 1.0) / float_i * (squared_expected_value - expected_value.powi(2));
+                let var = squared_deviations / float_i;
                 if self.alpha_stop
                     - 2.0 * normal.cdf(-(float_i + 1.0).sqrt() * self.max_err_stop / var.sqrt())
                     > 0.0
-- 
2.43.0

