From 2cd88f3b38fb94098563709b0b2779c9295f474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 1/6] fix: reject CIMs with NaN entries or negative transition
 intensities

The checks were written as comparisons that are false for NaN, so a NaN
entry passed all of them, and the sign of the off-diagonal entries was
never checked.
---
 src/params.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..6015cb9 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -303,7 +303,7 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
-            .any(|x| x.diag().iter().any(|x| x >= &0.0))
+            .any(|x| x.diag().iter().any(|x| !(x < &0.0)))
         {
             warn!(
                 "The diagonal of each cim for node {} must be non-positive",
@@ -318,7 +318,7 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         if cim
             .sum_axis(Axis(2))
             .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
+            .any(|x| !(f64::abs(x.clone()) <= f64::EPSILON.sqrt()))
         {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
@@ -329,6 +329,20 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if each transition intensity (off-diagonal entry) is non-negative
+        if cim.axis_iter(Axis(0)).any(|x| {
+            x.indexed_iter()
+                .any(|((row, col), x)| row != col && !(x >= &0.0))
+        }) {
+            warn!(
+                "The off-diagonal of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The off-diagonal of each cim must be non-negative",
+            )));
+        }
+
         return Ok(());
     }
 
-- 
2.43.0


From a64f38550c6d9edb2ab4561fc61e789f294f94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 2/6] fix: never sample a next state with zero intensity or
 outside the domain

The position among the positive entries was used as a state index, so
states with zero intensity shifted the result, and a draw beyond the
cumulative sum (which may be slightly below one) pushed it past the
domain.
---
 src/params.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 6015cb9..02de84d 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,26 +231,24 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // Select the last state, among those with a positive intensity, whose preceding
+                // cumulative probability is lower than `urand`. The first one is always a candidate.
+                let next_state = cim
+                    .slice(s![u, state, ..])
+                    .map(|x| x / lambda)
+                    .iter()
+                    .enumerate()
+                    .fold((state, 0.0), |mut acc, (idx, ele)| {
+                        if ele > &0.0 && (acc.0 == state || acc.1 < urand) {
+                            acc.0 = idx;
                         }
                         if ele > &0.0 {
                             acc.1 += ele;
                         }
                         acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    });
 
-                let next_state = StateType::Discrete(next_state);
+                let next_state = StateType::Discrete(next_state.0);
                 trace!(
                     "Generate random state. Node: {} - State: {:?}",
                     self.get_label(),
-- 
2.43.0


From e3376a20473555340b55b8d44f250db050bf1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 3/6] fix: reject NaN as the density of a graph generator

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 5085c43..3270c2c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -192,7 +192,7 @@ pub struct UniformGraphGenerator {
 
 impl RandomGraphGenerator for UniformGraphGenerator {
     fn new(density: f64, seed: Option<u64>) -> UniformGraphGenerator {
-        if density < 0.0 || density > 1.0 {
+        if !(density >= 0.0 && density <= 1.0) {
             panic!(
                 "Density value must be between 1.0 and 0.0, got {}.",
                 density
-- 
2.43.0


From ee2a28e3ed49bdf0c186bac10ea0713f09823c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 4/6] fix: reject NaN as an interval bound of a parameters
 generator

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 3270c2c..9ac8d7f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -303,7 +303,7 @@ pub struct UniformParametersGenerator {
 
 impl RandomParametersGenerator for UniformParametersGenerator {
     fn new(interval: Range<f64>, seed: Option<u64>) -> UniformParametersGenerator {
-        if interval.start < 0.0 || interval.end < 0.0 {
+        if !(interval.start >= 0.0 && interval.end >= 0.0) {
             panic!(
                 "Interval must be entirely less or equal than 0, got {}..{}.",
                 interval.start, interval.end
-- 
2.43.0


From e3616e7d35bc4388ac7c12bd5c9b8451cc0cebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 5/6] fix: earn the instantaneous reward of the state the
 process stayed in

The stay between two transitions earned the reward of the state entered
at its end.
---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..6f93523 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,11 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // Between two transitions the process stays in the previous state.
+                    ret += discount
+                        * reward_function
+                            .call(&previous.state, None)
+                            .instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From a7c19ffef07db782c5080c23d5e855d7444e8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 6/6] fix: amalgamation does not panic when the nodes' rounding
 adds up

Each node's rows may sum to zero only within the tolerance; the sums of
several nodes exceeded it and the validation result was unwrapped.
---
 src/process/ctbn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..15b4199 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -131,7 +131,9 @@ impl CtbnNetwork {
             BTreeSet::from_iter((0..state_space).map(|x| x.to_string())),
         );
 
-        amalgamated_param.set_cim(amalgamated_cim).unwrap();
+        // The nodes' parameters are already validated. The rounding of their row sums adds up here
+        // and could exceed the tolerance used by the validation.
+        amalgamated_param.set_cim_unchecked(amalgamated_cim);
 
         let mut ctmp = CtmpProcess::new();
 
-- 
2.43.0

