From 2cdfb1f06e7a84f20245cc9c2da6885685d0ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:58 +0000
Subject: [PATCH 01/57] fix: slate rewards use each round's own context

action_interaction_reward_function() divided the row index by len_list (times
the number of slates) instead of the number of slates per round, so the expected
reward of a slate was computed from the context of another round.
---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..820b964 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1427,7 +1427,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int8")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From ab698248a72666d6a98391161bb1131166aca2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:58 +0000
Subject: [PATCH 02/57] fix: 'optimal' slate evaluation policy picks the top
 actions

generate_evaluation_policy_pscore() sorted in ascending order, so 'optimal'
used the bottom-L actions and 'anti-optimal' the top-L actions, contrary to
its documentation.
---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 820b964..8de9e52 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = (-base_expected_reward).argsort(axis=1)[
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From ef7afe08b6c9878fb5b6080fa3306d53e92740fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:58 +0000
Subject: [PATCH 03/57] fix: slate actions above 127 no longer overflow

Action indices were cast to int8, so with more than 128 unique actions the
expected rewards were read from the wrong (negative) index.
---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 8de9e52..6a70b27 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int16")
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1426,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list)).astype("int16")
     n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
-- 
2.43.0


From f9f4d256f38a6f3e807ce192a7ceae9cf67788d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:57 +0000
Subject: [PATCH 04/57] fix: ground-truth value of slate policies

Without a base reward function the value was summed over rounds instead of
averaged and ignored the click model; with the cascade click model the discount
of a slot was propagated by its mean although it is random, so the value
differed from the expectation of the generated rewards for len_list > 2.
---
 obp/dataset/synthetic_slate.py | 52 ++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 6a70b27..7dd5ce4 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -726,6 +726,36 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         # return: array-like, shape (n_rounds, len_list)
         return reward
 
+    def _calc_slot_level_expected_reward(
+        self, expected_reward_factual: np.ndarray
+    ) -> np.ndarray:
+        """Calculate the expectation of the rewards drawn by `sample_reward_given_expected_reward`.
+
+        Parameters
+        ------------
+        expected_reward_factual: array-like, shape (n_slates, len_list)
+            Expected rewards of the slots before applying the click model.
+
+        Returns
+        ----------
+        expected_reward: array-like, shape (n_slates, len_list)
+            Expected rewards of the slots after applying the click model.
+
+        """
+        expected_reward_ = expected_reward_factual * self.exam_weight
+        if self.reward_type == "binary":
+            # the discount factor depends on the sampled clicks, so we need its moments;
+            # moments[k] is the expectation of the (k+1)-th power of the discount factor
+            moments = np.ones((self.len_list + 1, expected_reward_.shape[0]))
+            powers = np.arange(1, self.len_list + 1)[:, np.newaxis]
+            for pos_ in np.arange(self.len_list):
+                click_prob = expected_reward_[:, pos_].copy()
+                expected_reward_[:, pos_] = moments[0] * click_prob
+                if pos_ + 1 < self.len_list:
+                    decrease = 1 - self.attractiveness[pos_ + 1] ** powers
+                    moments[:-1] -= decrease * click_prob * moments[1:]
+        return expected_reward_
+
     def obtain_batch_bandit_feedback(
         self,
         n_rounds: int,
@@ -961,7 +991,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._calc_slot_level_expected_reward(
+                expected_slate_rewards
+            )
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
@@ -996,21 +1030,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 )
 
                 # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._calc_slot_level_expected_reward(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
-- 
2.43.0


From 75cfc19ed2737703ee5cf1414323179dbedda1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 05/57] fix: continuous slate rewards match their reported
 expectation

The noise of every slot (and batch) was drawn from the same seed, and the
reported expected rewards and ground-truth value ignored the truncation of the
reward distribution.
---
 obp/dataset/synthetic_slate.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 7dd5ce4..4b05e26 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -13,6 +13,7 @@ from typing import Union
 import numpy as np
 from scipy.special import logit
 from scipy.special import perm
+from scipy.stats import norm
 from scipy.stats import truncnorm
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
@@ -690,7 +691,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             Sampled rewards.
 
         """
-        expected_reward_factual *= self.exam_weight
+        expected_reward_factual = expected_reward_factual * self.exam_weight
         if self.reward_type == "binary":
             sampled_reward_list = list()
             discount_factors = np.ones(expected_reward_factual.shape[0])
@@ -719,7 +720,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
@@ -754,6 +755,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 if pos_ + 1 < self.len_list:
                     decrease = 1 - self.attractiveness[pos_ + 1] ** powers
                     moments[:-1] -= decrease * click_prob * moments[1:]
+        else:
+            # rewards are sampled from the normal distribution truncated at `reward_min`
+            mean = expected_reward_.astype(float)
+            z = (mean - self.reward_min) / self.reward_std
+            expected_reward_ = mean + self.reward_std * norm.pdf(z) / norm.cdf(z)
         return expected_reward_
 
     def obtain_batch_bandit_feedback(
@@ -853,6 +859,10 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        # report the expectation of the sampled reward
+        expected_reward_factual = self._calc_slot_level_expected_reward(
+            expected_reward_factual
+        )
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From 8d6eba371b7ccbc2e1d221433833e2d7f9c6368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:33 +0000
Subject: [PATCH 06/57] fix: continuous synthetic rewards match their
 expected_reward

The reward noise was drawn with the seed that also drives action sampling, so
it was a function of the chosen action, and the location of the truncated
normal had already been corrected for truncation. The mean of the logged
rewards therefore differed from the logged expected rewards.
---
 obp/dataset/synthetic.py       | 5 +++--
 obp/dataset/synthetic_multi.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..14e467e 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
@@ -327,6 +327,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_param_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -365,7 +366,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_param_, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..67ed3ad 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -270,6 +270,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_param_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -305,7 +306,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_param_, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From eeb146b7f7524483dd3d187be959acd1668e943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 07/57] fix: synthetic datasets draw fresh actions for every
 batch

Actions (and action embeddings) were sampled from a generator re-seeded on every
call, so consecutive batches reused the same draws, and an embedding dimension
shared its draws with the actions when random_state equals its index.
---
 obp/dataset/synthetic.py            | 2 +-
 obp/dataset/synthetic_continuous.py | 4 ++--
 obp/dataset/synthetic_embed.py      | 4 ++--
 obp/dataset/synthetic_multi.py      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 14e467e..38aac18 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -363,7 +363,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         else:
             pi_b = softmax(self.beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_param_, actions)
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..9a01fb6 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,7 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = truncnorm.pdf(
                 action, a, b, loc=expected_action_values, scale=self.action_noise
@@ -195,7 +195,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=self.min_action_value,
                 scale=(self.max_action_value - self.min_action_value),
                 size=n_rounds,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = uniform.pdf(
                 action,
diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..415dcb0 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -306,14 +306,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             )
         else:
             pi_b = softmax(self.beta * pi_b_logits)
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample action embeddings based on sampled actions
         action_embed = np.zeros((n_rounds, self.n_cat_dim), dtype=int)
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 67ed3ad..d9803f0 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -299,7 +299,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         else:
             pi_b = softmax(beta_ * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-- 
2.43.0


From 117a9169062a63fb65a1e7263a7eab25c61bc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 08/57] fix: z-score of the synthetic reward functions

Missing parentheses: the mean divided by the standard deviation was subtracted
instead of standardising the values.
---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 38aac18..1b5d184 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -825,8 +825,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From a17e13025bb6a689dfab74a4ba3f5e20f7def793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 09/57] fix: multi-logger data with deficient actions follows
 betas

All strata used the inherited beta instead of their own, and the average
logging policy put probability on actions that no logger could choose.
---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index d9803f0..26e702a 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -294,7 +294,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -303,7 +303,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_param_, actions)
-- 
2.43.0


From 5e6b09b019e2c1bd782209ff2469650ac6c1c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 10/57] fix: sub-Gaussian tuning estimators accept estimated
 propensities

estimated_pscore was not passed on, so use_estimated_pscore=True always raised.
---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..e9add54 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1355,6 +1355,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1435,6 +1436,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1564,6 +1566,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1655,6 +1658,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From 77e8e56eb6c99522dd50ca555e116dd14143cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 11/57] fix: tuning estimators no longer sort the caller's list
 of candidates

---
 obp/ope/estimators_tuning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index e9add54..adb9fdf 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -419,7 +419,7 @@ class InverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = InverseProbabilityWeighting
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -619,7 +619,7 @@ class DoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -839,7 +839,7 @@ class SwitchDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SwitchDoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -1059,7 +1059,7 @@ class DoublyRobustWithShrinkageTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobustWithShrinkage
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1288,7 +1288,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
         self.base_ope_estimator = SubGaussianInverseProbabilityWeighting
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1489,7 +1489,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SubGaussianDoublyRobust
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
-- 
2.43.0


From a8b5d219104dcefd02263e11780f247291ce4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 12/57] fix: OffPolicyEvaluation accepts p_e_a given as an
 array

The shape check referred to the variables of the dictionary branch.
---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From bfc94dc0149d33714bd12f9337cfac43f96174e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:56 +0000
Subject: [PATCH 13/57] fix: confidence intervals of the balanced multi-logger
 estimators

estimate_interval passed the average propensity under a keyword that
_estimate_round_rewards does not have, so it always raised a TypeError.
---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From a0669563d408ddae7006257fb3d84811d950defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:56 +0000
Subject: [PATCH 14/57] fix: weighted multi-logger estimators accept any
 stratum ids

The per-stratum statistics were indexed by the raw stratum id, which fails
(or reads another stratum) when the ids present are not exactly 0..K-1.
---
 obp/ope/estimators_multi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..a99a931 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,14 +683,16 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, inverse_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = inverse_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
 
-        return reward * iw * weight_k[stratum_idx]
+        return reward * iw * weight_k[inverse_idx]
 
     def estimate_policy_value(
         self,
@@ -1600,16 +1602,18 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, inverse_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
-            idx_ = stratum_idx == k
+        for k in np.arange(unique_stratum_idx.shape[0]):
+            idx_ = inverse_idx == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
+        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[inverse_idx]
 
         return estimated_rewards
 
-- 
2.43.0


From 6931c460c946b1be5079d30834d871176104908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 15/57] fix: round-wise rewards of DR variants accept a missing
 position

The visualization methods of OffPolicyEvaluation call them with the
feedback's position, which is None for single-slot data.
---
 obp/ope/estimators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..4609d58 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1340,6 +1340,8 @@ class SelfNormalizedDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         q_hat_at_position = estimated_rewards_by_reg_model[np.arange(n), :, position]
@@ -1460,6 +1462,8 @@ class SwitchDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         switch_indicator = np.array(iw <= self.lambda_, dtype=int)
@@ -1665,6 +1669,8 @@ class DoublyRobustWithShrinkage(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
@@ -1867,6 +1873,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         iw = action_dist[np.arange(action.shape[0]), action, position] / pscore
         iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
         estimated_rewards = iw_hat * reward
@@ -2055,6 +2063,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
-- 
2.43.0


From b560fada9612fabb01e6a3f578924d3e6bc19e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 16/57] fix: embedding selection returns the last accepted
 estimate

When the selection loop ran to its end, the estimate accepted last was not
yet in the array the result was read from (and the array did not exist when
no dimension could be removed).
---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..e869af3 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -385,7 +385,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -473,7 +473,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From 8d5227ea3fa3e56d1af8565169d8c5668692cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:37 +0000
Subject: [PATCH 17/57] fix: multi-class reduction with arbitrary class labels

The full-feedback matrix was filled with the raw labels instead of the
re-indexed ones, so labels other than 0..K-1 gave wrong rewards or failed.
---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From 434825757e258e06404b07c432319eba6152f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:50 +0000
Subject: [PATCH 18/57] fix: run_bandit_replay runs and covers the policy's
 whole action set

It crashed on every call ('module' object is not callable), sized the result
by the largest logged action instead of the policy's number of actions, and
wrote a position array into the caller's feedback.
---
 obp/simulator/replay.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..4c06fec 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
@@ -76,7 +75,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=policy_.n_actions,
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From b5ce99824b04663f07c89e29764ea9af75bafb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 19/57] fix: drift transition weights of requests that end
 mid-interval

When fewer rounds than available were requested, the weights of the last
rounds of the interval were used instead of those of the next rounds.
---
 obp/simulator/coefficient_drifter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..2106a75 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -193,7 +193,7 @@ class CoefficientDrifter:
 
         shift_remainder = self.available_rounds - rounds
         if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+            transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From e866f0e151fbc7b72942d941399ab188505d9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:20 +0000
Subject: [PATCH 20/57] fix: single bandit rounds have the shape of those of a
 batch

A round made by next_bandit_round had a 2D context, so contextual policies
crashed on a 3D context in BanditPolicySimulator.step, and only the first
row of action_context.
---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..a911f5c 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -238,8 +238,8 @@ class BanditEnvironmentSimulator:
 
         return BanditRound(
             n_actions=self.n_actions,
-            context=context,
-            action_context=self.action_context[0],
+            context=context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
-- 
2.43.0


From 68465292c572f839b71c8e970d3baef40a39b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 21/57] fix: calc_ground_truth_policy_value accepts feedback
 without positions

Synthetic feedback has position=None, which failed in zip().
---
 obp/simulator/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index a911f5c..6327821 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -477,11 +477,14 @@ def calc_ground_truth_policy_value(
 
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
-- 
2.43.0


From 03ee46427547f61e846ecacb18214bc40e863fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 22/57] fix: initialize() of contextual policies forgets what
 was learned

It reset the counters but kept the fitted linear and logistic models.
---
 obp/policy/linear.py   | 9 +++++++++
 obp/policy/logistic.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..7f59c7c 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,15 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize Parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Initialize the parameters of the linear models."""
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..2e63a85 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -60,6 +60,15 @@ class BaseLogisticPolicy(BaseContextualPolicy):
 
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
+        self._initialize_models()
+
+    def initialize(self) -> None:
+        """Initialize Parameters."""
+        super().initialize()
+        self._initialize_models()
+
+    def _initialize_models(self) -> None:
+        """Initialize the logistic regression models."""
         self.model_list = [
             MiniBatchLogisticRegression(
                 lambda_=self.lambda_list[i],
-- 
2.43.0


From 523fc88ed325c5041fd68da701dd666f49add194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:11 +0000
Subject: [PATCH 23/57] fix: logistic policies learn from zero rewards

The logistic loss is written for labels in {-1, 1} but received rewards in
{0, 1}, for which zero rewards have a constant loss and no gradient.
---
 obp/policy/logistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 2e63a85..47e3d87 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -347,6 +347,8 @@ class MiniBatchLogisticRegression:
 
     def fit(self, X: np.ndarray, y: np.ndarray):
         """Update coefficient vector by the mini-batch data."""
+        # the logistic loss is defined for labels in {-1, 1}, while rewards are in {0, 1}
+        y = np.where(y > 0, 1, -1)
         self._m = minimize(
             self.loss,
             self._m,
-- 
2.43.0


From 08578c423c99c77b0b194ffc0788532c36fe34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:15 +0000
Subject: [PATCH 24/57] fix: posterior precision of the logistic policies

The predicted probability in the Laplace approximation had a spurious
constant in its exponent.
---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 47e3d87..3ca8562 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -357,7 +357,7 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = (1 + np.exp(-X.dot(self._m))) ** (-1)
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
-- 
2.43.0


From 35ade129ebadd2a8d38cf2e4cf47cb61c637760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:36 +0000
Subject: [PATCH 25/57] fix: LogisticTS explores when a random_state is given

The models of all actions were seeded alike, so they drew the same noise in
lockstep and Thompson sampling over equal models always chose one action.
---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 3ca8562..37207ba 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -74,7 +74,7 @@ class BaseLogisticPolicy(BaseContextualPolicy):
                 lambda_=self.lambda_list[i],
                 alpha=self.alpha_list[i],
                 dim=self.dim,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             for i in np.arange(self.n_actions)
         ]
-- 
2.43.0


From 1169e08bbbe5e20c178bf96ff70c6bd15747abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:02 +0000
Subject: [PATCH 26/57] fix: IPWLearner scores when some actions are never
 logged

predict_proba of the classifier has one column per observed action, which
did not fit the (n_actions) columns of the scores.
---
 obp/policy/offline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..7ccb767 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -238,7 +238,8 @@ class IPWLearner(BaseOfflinePolicyLearner):
             score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
                 context
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
+            observed_actions = self.base_classifier_list[p].classes_
+            score_predicted[:, observed_actions, p] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From d2eeaff8fc0bbaca9a449035696e4c845b34eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 27/57] fix: propensity score estimates when some actions are
 unobserved

The columns of predict_proba are the actions observed in training, not all
actions, so estimates belonged to other actions or the lookup failed.
---
 obp/ope/classification_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..0c862a5 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -526,9 +526,12 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            # actions that are not observed in the training data have zero probability
+            proba = np.zeros((context[idx].shape[0], self.n_actions))
+            proba[:, self.base_model_list[pos_].classes_] = self.base_model_list[
+                pos_
+            ].predict_proba(context[idx])
+            estimated_pscore[idx] = proba[np.arange(action[idx].shape[0]), action[idx]]
         return estimated_pscore
 
     def fit_predict(
-- 
2.43.0


From af4d4532b394d529fc1738047fa1ce817a0e0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 28/57] fix: classification models predict without positions

predict(position=None) returned zeros (propensity scores) or failed
(importance weights) although fit accepts position=None.
---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 0c862a5..2278f3f 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,8 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +523,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From 3253a162c28cbbbf20ed368ecabcc844e1ef411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:34 +0000
Subject: [PATCH 29/57] fix: kernelized estimators accept integer actions

The in-place division of the action distance failed for integer arrays.
---
 obp/ope/estimators_continuous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/estimators_continuous.py b/obp/ope/estimators_continuous.py
index 1bae79b..895907e 100644
--- a/obp/ope/estimators_continuous.py
+++ b/obp/ope/estimators_continuous.py
@@ -157,7 +157,7 @@ class KernelizedInverseProbabilityWeighting(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= self.bandwidth
         return estimated_rewards
@@ -383,7 +383,7 @@ class KernelizedSelfNormalizedInverseProbabilityWeighting(
 
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= (kernel_func(u) / pscore).mean()
         return estimated_rewards
@@ -604,7 +604,7 @@ class KernelizedDoublyRobust(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = (
             kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
         )
-- 
2.43.0


From 67dca76abffbdf966df49c4c7d07707ef3bc3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 30/57] fix: ContinuousOffPolicyEvaluation leaves the caller's
 feedback as it is

---
 obp/ope/meta_continuous.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index a12941e..53eb4ed 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -100,9 +100,10 @@ class ContinuousOffPolicyEvaluation:
         for key_ in ["action", "reward", "pscore"]:
             if key_ not in self.bandit_feedback:
                 raise RuntimeError(f"Missing key of {key_} in 'bandit_feedback'.")
-        self.bandit_feedback["action_by_behavior_policy"] = self.bandit_feedback[
-            "action"
-        ]
+        self.bandit_feedback = {
+            **self.bandit_feedback,
+            "action_by_behavior_policy": self.bandit_feedback["action"],
+        }
         self.ope_estimators_ = dict()
         self.is_model_dependent = False
         for estimator in self.ope_estimators:
-- 
2.43.0


From dd95763ed84ef394e2026be66ead834e5f22c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:57 +0000
Subject: [PATCH 31/57] fix: OPE inputs with a wrong length or negative
 probabilities are rejected

An action/reward array shorter than action_dist was silently paired with its
first rows, and negative entries of action_dist went through as weights.
---
 obp/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/obp/utils.py b/obp/utils.py
index d3e9780..3d271d9 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -347,7 +347,7 @@ def check_ope_inputs(
     """
     # action_dist
     check_array(array=action_dist, name="action_dist", expected_dim=3)
-    if not np.allclose(action_dist.sum(axis=1), 1):
+    if np.any(action_dist < 0) or not np.allclose(action_dist.sum(axis=1), 1):
         raise ValueError("`action_dist` must be a probability distribution")
 
     # position
@@ -391,6 +391,10 @@ def check_ope_inputs(
             raise ValueError(
                 "Expected `action.shape[0] == reward.shape[0]`, but found it False"
             )
+        if not (action.shape[0] == action_dist.shape[0]):
+            raise ValueError(
+                "Expected `action.shape[0] == action_dist.shape[0]`, but found it False"
+            )
         if not (
             np.issubdtype(action.dtype, np.integer)
             and action.min() >= 0
-- 
2.43.0


From 6af4fdd786f837308de467ace6404f27c9a9ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:14 +0000
Subject: [PATCH 32/57] fix: SNMIPW with embedding selection is self-normalized

With embedding_selection_method given, the estimate and its confidence
width were those of MIPW, without the self-normalization.
---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e869af3..2e68ab5 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -709,7 +709,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From 7ca71e19fdeda7203d7b9580a4a7219fad778ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:15 +0000
Subject: [PATCH 33/57] fix: comparing policies in a figure works with more
 estimators than policies

---
 obp/ope/meta.py            | 2 +-
 obp/ope/meta_continuous.py | 2 +-
 obp/ope/meta_multi.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 0d445db..a7aa9b1 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -979,7 +979,7 @@ class OffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index 53eb4ed..e956b57 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -656,7 +656,7 @@ class ContinuousOffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_by_evaluation_policy_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index 3b08a6a..e8b8c72 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -774,7 +774,7 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
-- 
2.43.0


From 094aca1dce4d2f2cbd3fcfcf58f99b5cd5e77397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:15 +0000
Subject: [PATCH 34/57] fix: slate figures draw the interval, not twice its
 width

---
 obp/ope/meta_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/meta_slate.py b/obp/ope/meta_slate.py
index 7785631..044c665 100644
--- a/obp/ope/meta_slate.py
+++ b/obp/ope/meta_slate.py
@@ -481,7 +481,7 @@ class SlateOffPolicyEvaluation:
             random_state=random_state,
         )
         estimated_interval_a["errbar_length"] = (
-            estimated_interval_a.drop("mean", axis=1).diff(axis=1).iloc[:, -1].abs()
+            estimated_interval_a.drop("mean", axis=1).diff(axis=1).iloc[:, -1].abs() / 2
         )
         if is_relative:
             estimated_interval_a /= (
-- 
2.43.0


From 2555531ccca956b6385a43557394b1bcad294b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:45 +0000
Subject: [PATCH 35/57] fix: figures use the propensity scores and positions of
 each estimator

---
 obp/ope/meta.py       | 25 ++++++++++++++++++++++---
 obp/ope/meta_multi.py |  8 +++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index a7aa9b1..0192655 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -239,6 +239,23 @@ class OffPolicyEvaluation:
                 estimator_inputs[estimator_name][var_name] = value_or_dict
         return estimator_inputs
 
+    def _estimate_round_rewards(
+        self,
+        estimator: BaseOffPolicyEstimator,
+        estimator_input: Dict[str, Optional[np.ndarray]],
+    ) -> np.ndarray:
+        """Estimate round-wise rewards using the propensity scores and positions that the estimator uses."""
+        estimator_input = dict(estimator_input)
+        if getattr(estimator, "use_estimated_pscore", False):
+            for key_ in ["pscore", "pscore_avg"]:
+                if estimator_input.get(f"estimated_{key_}") is not None:
+                    estimator_input[key_] = estimator_input[f"estimated_{key_}"]
+        if estimator_input["position"] is None:
+            estimator_input["position"] = np.zeros(
+                estimator_input["reward"].shape[0], dtype=int
+            )
+        return estimator._estimate_round_rewards(**estimator_input)
+
     def estimate_policy_values(
         self,
         action_dist: np.ndarray,
@@ -626,7 +643,9 @@ class OffPolicyEvaluation:
         for estimator_name, estimator in self.ope_estimators_.items():
             estimated_round_rewards_dict[
                 estimator_name
-            ] = estimator._estimate_round_rewards(**estimator_inputs[estimator_name])
+            ] = self._estimate_round_rewards(
+                estimator, estimator_inputs[estimator_name]
+            )
         estimated_round_rewards_df = DataFrame(estimated_round_rewards_dict)
         estimated_round_rewards_df.rename(
             columns={key: key.upper() for key in estimated_round_rewards_dict.keys()},
@@ -965,8 +984,8 @@ class OffPolicyEvaluation:
             for estimator_name, estimator in self.ope_estimators_.items():
                 estimated_round_rewards_dict[estimator_name][
                     policy_name
-                ] = estimator._estimate_round_rewards(
-                    **estimator_inputs[estimator_name]
+                ] = self._estimate_round_rewards(
+                    estimator, estimator_inputs[estimator_name]
                 )
 
         plt.style.use("ggplot")
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index e8b8c72..617780a 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -490,7 +490,9 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
         for estimator_name, estimator in self.ope_estimators_.items():
             estimated_round_rewards_dict[
                 estimator_name
-            ] = estimator._estimate_round_rewards(**estimator_inputs[estimator_name])
+            ] = self._estimate_round_rewards(
+                estimator, estimator_inputs[estimator_name]
+            )
         estimated_round_rewards_df = DataFrame(estimated_round_rewards_dict)
         estimated_round_rewards_df.rename(
             columns={key: key.upper() for key in estimated_round_rewards_dict.keys()},
@@ -760,8 +762,8 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             for estimator_name, estimator in self.ope_estimators_.items():
                 estimated_round_rewards_dict[estimator_name][
                     policy_name
-                ] = estimator._estimate_round_rewards(
-                    **estimator_inputs[estimator_name]
+                ] = self._estimate_round_rewards(
+                    estimator, estimator_inputs[estimator_name]
                 )
 
         plt.style.use("ggplot")
-- 
2.43.0


From 52a8a9d5aeb0517dca575ec59840924fb687265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:34 +0000
Subject: [PATCH 36/57] fix: marginalized estimators reject action embeddings
 of a wrong length

---
 obp/ope/estimators_embed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 2e68ab5..75f9ca0 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -280,6 +280,10 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             action=action,
             reward=reward,
         )
+        if action_embed.shape[0] != reward.shape[0]:
+            raise ValueError(
+                "Expected `action_embed.shape[0] == reward.shape[0]`, but found it False"
+            )
         check_ope_inputs(
             action_dist=action_dist,
             position=position,
@@ -551,6 +555,10 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             action=action,
             reward=reward,
         )
+        if action_embed.shape[0] != reward.shape[0]:
+            raise ValueError(
+                "Expected `action_embed.shape[0] == reward.shape[0]`, but found it False"
+            )
         check_ope_inputs(
             action_dist=action_dist,
             position=position,
-- 
2.43.0


From bbe28104a631c4e6093fcc8acfc42ada7399bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 37/57] fix: one-round synthetic data have one-dimensional
 rewards and actions

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 1b5d184..619d60e 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 9a01fb6..569aa8b 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=expected_action_values.shape,
                 random_state=self.random_,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From a29adf55f77208120c7bae06ce92bd5110877d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:39 +0000
Subject: [PATCH 38/57] fix: uniform slate propensities do not overflow for
 long slates over many actions

---
 obp/dataset/synthetic_slate.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 4b05e26..42ab19e 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1109,7 +1109,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 .cumprod(axis=1)
                 .flatten()
             )
-            random_pscore = np.ones(context.shape[0] * self.len_list) / (
+            random_pscore = np.ones(context.shape[0] * self.len_list) / float(
                 self.n_unique_action**self.len_list
             )
         else:
@@ -1117,15 +1117,18 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 1.0
                 / np.tile(
                     np.arange(
-                        self.n_unique_action, self.n_unique_action - self.len_list, -1
+                        self.n_unique_action,
+                        self.n_unique_action - self.len_list,
+                        -1,
+                        dtype=float,
                     ),
                     (context.shape[0], 1),
                 )
                 .cumprod(axis=1)
                 .flatten()
             )
-            random_pscore = np.ones(context.shape[0] * self.len_list) / perm(
-                self.n_unique_action, self.len_list
+            random_pscore = np.ones(context.shape[0] * self.len_list) / float(
+                perm(self.n_unique_action, self.len_list)
             )
         random_pscore_item_position = (
             np.ones(context.shape[0] * self.len_list) / self.n_unique_action
-- 
2.43.0


From 2ecdd42a04fd72a86b17a582075835fc3779371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 39/57] fix: cascade_decay slate rewards depend on the slots
 above

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 42ab19e..4e01f7f 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1498,7 +1498,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 2e865bbfc09949e34e8b57f4b0e04077473f226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 40/57] fix: ground-truth slate value does not depend on
 internal batches

---
 obp/dataset/synthetic_slate.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 4e01f7f..1a68e02 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1013,6 +1013,13 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             batch_size = (n_rounds - 1) // n_batch + 1
             n_batch = (n_rounds - 1) // batch_size + 1
 
+            # base rewards may be normalized over rounds, so they are not calculated by batch
+            base_expected_reward = self.base_reward_function(
+                context=context,
+                action_context=self.action_context,
+                random_state=self.random_state,
+            )
+
             policy_value = 0.0
             for batch_idx in tqdm(
                 np.arange(n_batch),
@@ -1025,13 +1032,16 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 pscores_ = pscores[
                     batch_idx * batch_size : (batch_idx + 1) * batch_size
                 ]
+                base_expected_reward_ = base_expected_reward[
+                    batch_idx * batch_size : (batch_idx + 1) * batch_size
+                ]
 
                 expected_slate_rewards_ = self.reward_function(
                     context=context_,
                     action_context=self.action_context,
                     action=enumerated_slate_actions.flatten(),
                     action_interaction_weight_matrix=self.action_interaction_weight_matrix,
-                    base_reward_function=self.base_reward_function,
+                    base_reward_function=lambda **kwargs: base_expected_reward_,
                     reward_type=self.reward_type,
                     reward_structure=self.reward_structure,
                     len_list=self.len_list,
-- 
2.43.0


From aa7cfc7957e0e1f920f1cee2632b6474e604ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:35 +0000
Subject: [PATCH 41/57] fix: deficient actions and logged actions of
 multi-class data are drawn independently

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 95c50b5..5ba73ba 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -274,7 +274,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
                 :, np.newaxis
             ]  # re-normalize the probability distribution
         # sample actions and factual rewards
-        actions = sample_action_fast(pi_b, random_state=random_state)
+        actions = sample_action_fast(pi_b, random_state=random_)
         rewards = self.y_full_ev[np.arange(self.n_rounds_ev), actions]
 
         return dict(
-- 
2.43.0


From b2a2f3ec03ad42cadfe4aed3c0939bf9b50d8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:19 +0000
Subject: [PATCH 42/57] fix: importance weights are estimated when a position
 has no rounds to predict

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 2278f3f..43520dc 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -208,6 +208,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if context[idx].shape[0] == 0:
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -335,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if test_idx[idx].shape[0] == 0:
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From fca1262d1a501cb893ed46bfa12edf0d3a430665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:19 +0000
Subject: [PATCH 43/57] fix: QLearner can be trained with the iw and mrdr
 fitting methods

---
 obp/policy/offline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 7ccb767..d6f5027 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -442,6 +442,7 @@ class QLearner(BaseOfflinePolicyLearner):
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
         unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist /= self.n_actions
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From 0319696220c84895663988ffd1b6bfe417542c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:19 +0000
Subject: [PATCH 44/57] fix: default uniform propensities of IPWLearner and
 QLearner use n_actions

---
 obp/policy/offline.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index d6f5027..86626d2 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -164,8 +164,7 @@ class IPWLearner(BaseOfflinePolicyLearner):
                 "and please use `obp.policy.NNPolicyLearner` instead."
             )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
@@ -433,8 +432,7 @@ class QLearner(BaseOfflinePolicyLearner):
             position=position,
         )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
-- 
2.43.0


From 8cf5a31c986db4d2f0c80a0e01b749febfd2cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:19 +0000
Subject: [PATCH 45/57] fix: NNPolicyLearner survives a mini-batch of a single
 round

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 86626d2..867552b 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1154,7 +1154,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1187,7 +1188,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From 3d052671d1f79259182c6f8545f0ed3e246b47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 46/57] fix: NNPolicyLearner survives probabilities that
 underflow to zero

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 867552b..356e499 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1235,7 +1235,9 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         """
         current_pi = action_dist[:, :, 0].detach()
-        log_prob = torch.log(action_dist[:, :, 0])
+        # probabilities that underflow to zero must not make the gradient NaN
+        tiny = torch.finfo(action_dist.dtype).tiny
+        log_prob = torch.log(action_dist[:, :, 0].clamp(min=tiny))
         idx_tensor = torch.arange(action.shape[0], dtype=torch.long)
 
         if self.off_policy_objective == "dm":
@@ -1303,7 +1305,7 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
         idx_tensor = torch.arange(action.shape[0], dtype=torch.long)
         iw = action_dist[idx_tensor, action, 0] / pscore
 
-        return torch.log(iw.mean())
+        return torch.log(iw.mean().clamp(min=torch.finfo(iw.dtype).tiny))
 
     def predict(self, context: np.ndarray) -> np.ndarray:
         """Predict best actions for new data.
-- 
2.43.0


From 7c453aee1026beae8917091e90fd9667ac587dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:25 +0000
Subject: [PATCH 47/57] fix: importance of embedding dimensions is never NaN

---
 obp/dataset/synthetic_embed.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 415dcb0..697c1b3 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -264,10 +264,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
         cat_dim_importance = np.zeros(self.n_cat_dim)
-        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
-            size=1,
-        )
+        # the gamma variables behind a draw from a Dirichlet distribution with small
+        # parameters can all underflow, in which case the draw is NaN
+        relevant_importance = np.full(self.n_cat_dim - self.n_irrelevant_cat_dim, np.nan)
+        while np.isnan(relevant_importance).any():
+            relevant_importance = self.random_.dirichlet(
+                alpha=self.random_.uniform(size=relevant_importance.shape[0])
+            )
+        cat_dim_importance[self.n_irrelevant_cat_dim :] = relevant_importance
         cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
         # calc expected rewards given context and action (n_data, n_actions)
-- 
2.43.0


From 9d00811eab9c8ca3df02715a42472bd9a9787ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:31 +0000
Subject: [PATCH 48/57] fix: neural learners stop when the loss has stopped
 improving

The loss was counted as not improving when it decreased, and stopping left
only the loop over the mini-batches of the current epoch.
---
 obp/policy/offline.py            | 20 ++++++++++++++------
 obp/policy/offline_continuous.py | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 356e499..4bb42a1 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1161,13 +1161,15 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1192,13 +1194,15 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                         loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def _estimate_policy_gradient(
         self,
@@ -1816,13 +1820,15 @@ class QFuncEstimator:
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1833,13 +1839,15 @@ class QFuncEstimator:
                     loss = mse_loss(r, q_hat)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def predict(
         self,
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8ce6a69..8fa2f3d 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -489,13 +489,15 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
                 optimizer.step()
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -511,13 +513,15 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
                     loss_value = loss.item()
                     self.val_loss_curve.append(-loss_value)
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def _estimate_policy_gradient(
         self,
@@ -996,13 +1000,15 @@ class QFuncEstimatorForContinuousAction:
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1011,13 +1017,15 @@ class QFuncEstimatorForContinuousAction:
                     loss = nn.functional.mse_loss(r, q_hat)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def predict(
         self,
-- 
2.43.0


From c66f42355f520aff0018e49ea26eae47bef9d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 49/57] fix: self-normalized slate estimators accept integer
 propensities

---
 obp/ope/estimators_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_slate.py b/obp/ope/estimators_slate.py
index a369d96..7a612a1 100644
--- a/obp/ope/estimators_slate.py
+++ b/obp/ope/estimators_slate.py
@@ -950,8 +950,8 @@ class BaseSlateSelfNormalizedInverseProbabilityWeighting(
             Self-Normalized rewards estimated for each slate and slot (position).
 
         """
-        estimated_rewards = np.zeros_like(behavior_policy_pscore)
-        iw = np.zeros_like(behavior_policy_pscore)
+        estimated_rewards = np.zeros(behavior_policy_pscore.shape[0])
+        iw = np.zeros(behavior_policy_pscore.shape[0])
         for pos_ in range(self.len_list):
             idx = position == pos_
             iw[idx] = evaluation_policy_pscore[idx] / behavior_policy_pscore[idx]
-- 
2.43.0


From 379fcb45d913b281512e3975f631d9a829771edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 50/57] fix: mrdr fitting accepts integer action distributions

---
 obp/ope/regression_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 421b9cb..d7d7b1d 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -173,8 +173,7 @@ class RegressionModel(BaseEstimator):
                         X, reward[idx], sample_weight=sample_weight
                     )
                 elif self.fitting_method == "mrdr":
-                    sample_weight = action_dist_at_pos
-                    sample_weight *= 1.0 - pscore[idx]
+                    sample_weight = action_dist_at_pos * (1.0 - pscore[idx])
                     sample_weight /= pscore[idx] ** 2
                     self.base_model_list[pos_].fit(
                         X, reward[idx], sample_weight=sample_weight
-- 
2.43.0


From 5e24c38351a3c2ad6bb696301225bc53974bb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:13 +0000
Subject: [PATCH 51/57] fix: behavior policies of synthetic logs are not
 truncated for integer logits

---
 obp/dataset/synthetic.py       | 2 +-
 obp/dataset/synthetic_multi.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 619d60e..64b82a1 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -349,7 +349,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
             )
         # create some deficient actions based on the value of `n_deficient_actions`
         if self.n_deficient_actions > 0:
-            pi_b = np.zeros_like(pi_b_logits)
+            pi_b = np.zeros_like(pi_b_logits, dtype=float)
             n_supported_actions = self.n_actions - self.n_deficient_actions
             supported_actions = np.argsort(
                 self.random_.gumbel(size=(n_rounds, self.n_actions)), axis=1
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 26e702a..251312e 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -284,7 +284,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         pi_b_logits = expected_reward_
         # create some deficient actions based on the value of `n_deficient_actions`
         if self.n_deficient_actions > 0:
-            pi_b = np.zeros_like(pi_b_logits)
+            pi_b = np.zeros_like(pi_b_logits, dtype=float)
             n_supported_actions = self.n_actions - self.n_deficient_actions
             supported_actions = np.argsort(
                 self.random_.gumbel(size=(n_rounds, self.n_actions)), axis=1
@@ -301,7 +301,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         # sample actions for each round based on the behavior policy
         actions = sample_action_fast(pi_b, random_state=self.random_)
 
-        pi_b_avg = np.zeros_like(pi_b_logits)
+        pi_b_avg = np.zeros_like(pi_b_logits, dtype=float)
         for beta, rho in zip(self.betas, self.rhos):
             if self.n_deficient_actions > 0:
                 pi_b_avg[supported_actions_idx] += rho * softmax(
-- 
2.43.0


From cd73d1aedf733a0f9a8f8a37a8176f07177e751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:15 +0000
Subject: [PATCH 52/57] fix: ground-truth simulation supports logistic policies
 with batches

---
 obp/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6327821..a4fa328 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -498,9 +498,9 @@ def calc_ground_truth_policy_value(
                 )
             action = selected_actions[position_]
             # sample reward
-            reward = reward_sampler(
-                context_.reshape(1, dim_context), np.array([action])
-            )
+            reward = np.ravel(
+                reward_sampler(context_.reshape(1, dim_context), np.array([action]))
+            )[0]
             cumulative_reward += expected_reward_[action]
 
             # update parameters of a bandit policy
-- 
2.43.0


From 064f5c5c8ec2cffbc430146965a80139adfddad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:15 +0000
Subject: [PATCH 53/57] fix: logistic policies fit contexts of any scale

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 37207ba..79c4280 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -331,7 +331,7 @@ class MiniBatchLogisticRegression:
         X, y = args
         return (
             0.5 * (self._q * (w - self._m)).dot(w - self._m)
-            + np.log(1 + np.exp(-y * w.dot(X.T))).sum()
+            + np.logaddexp(0, -y * w.dot(X.T)).sum()
         )
 
     def grad(self, w: np.ndarray, *args) -> np.ndarray:
-- 
2.43.0


From 45576cd1bde73f09d36d4736d01648e005bcb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:21 +0000
Subject: [PATCH 54/57] fix: slot-level distributions of slate policies are
 exact for logits of any magnitude

---
 obp/dataset/synthetic_slate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 1a68e02..0b8a67b 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1234,7 +1234,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             [
                 [evaluation_policy_logit_[i] for _ in range(self.len_list)]
                 for i in range(n_rounds)
-            ]
+            ],
+            dtype=float,
         )
         # calculate action probabilities for all the counterfactual actions at the position
         # (n_rounds, len_list, n_unique_action)
@@ -1244,9 +1245,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 for pos_ in range(self.len_list - 1):
                     action_ = action[i][pos_]
                     # mask action choice probability of the previously chosen action
-                    # to avoid overflow in softmax function, set -1e4 instead of -np.inf
                     # (make action choice probability 0 for the previously chosen action by softmax)
-                    evaluation_policy_logit_[i, pos_ + 1 :, action_] = -1e4
+                    evaluation_policy_logit_[i, pos_ + 1 :, action_] = -np.inf
             # (len_list, n_unique_action)
             evaluation_policy_action_dist.append(softmax(evaluation_policy_logit_[i]))
         # (n_rounds, len_list, n_unique_action) -> (n_rounds * len_list * n_unique_action, )
-- 
2.43.0


From 1189c8a3f8dc87cecbf05839daec95fbc5228166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:21 +0000
Subject: [PATCH 55/57] fix: slate reward interactions accept integer base
 rewards

---
 obp/dataset/synthetic_slate.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 0b8a67b..860b5fa 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1494,9 +1494,12 @@ def action_interaction_reward_function(
                         break
                 elif pos_ == pos2_:
                     continue
-                tmp_fixed_reward += action_interaction_weight_matrix[
-                    action_2d[:, pos_], action_2d[:, pos2_]
-                ]
+                tmp_fixed_reward = (
+                    tmp_fixed_reward
+                    + action_interaction_weight_matrix[
+                        action_2d[:, pos_], action_2d[:, pos2_]
+                    ]
+                )
         else:
             for pos2_ in np.arange(len_list):
                 if is_cascade:
@@ -1509,7 +1512,7 @@ def action_interaction_reward_function(
                     action_2d[:, pos2_],
                 ]
                 weight_ = action_interaction_weight_matrix[pos2_, pos_]
-                tmp_fixed_reward += expected_reward_ * weight_
+                tmp_fixed_reward = tmp_fixed_reward + expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
     if reward_type == "binary":
-- 
2.43.0


From f04e9aac73d30a5f01ff0b77c9e83cfde8dd3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:33 +0000
Subject: [PATCH 56/57] fix: neural learners leave the caller's hyperparameter
 dictionary unchanged

---
 obp/policy/offline.py            | 7 +++++--
 obp/policy/offline_continuous.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 4bb42a1..ac9def3 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -942,8 +942,11 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         if self.off_policy_objective in ["dr", "dm"]:
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["n_actions"] = self.n_actions
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
+                self.q_func_estimator_hyperparams = {
+                    **self.q_func_estimator_hyperparams,
+                    "n_actions": self.n_actions,
+                    "dim_context": self.dim_context,
+                }
                 self.q_func_estimator = QFuncEstimator(
                     **self.q_func_estimator_hyperparams
                 )
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8fa2f3d..b31cc88 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -294,7 +294,10 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
 
         if self.pg_method != "ipw":
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
+                self.q_func_estimator_hyperparams = {
+                    **self.q_func_estimator_hyperparams,
+                    "dim_context": self.dim_context,
+                }
                 self.q_func_estimator = QFuncEstimatorForContinuousAction(
                     **self.q_func_estimator_hyperparams
                 )
-- 
2.43.0


From e2df111f075d2091ec7ec7dc3ff1272c2c0fa6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:57 +0000
Subject: [PATCH 57/57] fix: policy regulariser of neural learners stays finite
 when the average weight underflows

---
 obp/policy/offline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index ac9def3..4dc6050 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1310,9 +1310,12 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         """
         idx_tensor = torch.arange(action.shape[0], dtype=torch.long)
-        iw = action_dist[idx_tensor, action, 0] / pscore
+        # the average weight may underflow, so its logarithm is computed in log space
+        pi = action_dist[idx_tensor, action, 0]
+        log_pi = torch.log(pi.clamp(min=torch.finfo(pi.dtype).tiny))
+        log_iw = log_pi - torch.log(pscore)
 
-        return torch.log(iw.mean().clamp(min=torch.finfo(iw.dtype).tiny))
+        return torch.logsumexp(log_iw, dim=0) - np.log(action.shape[0])
 
     def predict(self, context: np.ndarray) -> np.ndarray:
         """Predict best actions for new data.
-- 
2.43.0

