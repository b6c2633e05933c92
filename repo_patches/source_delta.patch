From 9644e8e7584d519269f84dca2a3efa30eba98e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 01/19] fix: sample distinct elements when mixing uniform
 sampling without waiting for priorities

PrioritizedBuffer.sample(uniform_ratio>0) with
wait_priority_after_sampling=False could return the same element from both
the uniform and the prioritized part.
---
 chainerrl/misc/prioritized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 33e8cc6..ea8cbd0 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -42,12 +42,13 @@ class PrioritizedBuffer (object):
         min_prob = self.priority_mins.min() / total_priority
         indices = []
         priorities = []
+        un_indices, un_priorities = [], []
         if uniform_ratio > 0:
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
+            # Remove them so that they are not sampled again below
             un_indices, un_priorities = \
-                self.priority_sums.uniform_sample(
-                    n_uniform, remove=self.wait_priority_after_sampling)
+                self.priority_sums.uniform_sample(n_uniform, remove=True)
             indices.extend(un_indices)
             priorities.extend(un_priorities)
             n -= n_uniform
@@ -59,6 +60,9 @@ class PrioritizedBuffer (object):
                 n, remove=self.wait_priority_after_sampling)
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
+        if not self.wait_priority_after_sampling:
+            for i, p in zip(un_indices, un_priorities):
+                self.priority_sums[i] = p
 
         probs = [
             uniform_ratio / len(self)
-- 
2.43.0


From e85086e4f6a09794c04d5692b70cbf12e74671f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 02/19] fix: do not exceed max_episode_len when collecting
 demonstrations

---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..201cfc0 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,10 +52,10 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_r += r
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
-- 
2.43.0


From 521e66ed47e27a3d99bbe6b1cc152a23c7ee5de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 03/19] fix: stop batch training on success also when the
 evaluation score is zero

---
 chainerrl/experiments/train_agent_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..c0e2065 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -108,7 +108,7 @@ def train_agent_batch(agent, env, steps, outdir,
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
                 if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
+                        t=t, episodes=np.sum(episode_idx)) is not None:
                     if (successful_score is not None and
                             evaluator.max_score >= successful_score):
                         break
-- 
2.43.0


From fa7b1445f9a12e2746641b59243ba9dd6eebbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 04/19] fix: keep the best score of AsyncEvaluator in double
 precision

---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From 06a48e5dec8beb0e0a6a0f83e7c8015a1c5bbaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 05/19] fix: bound the deviation in NormalizedRewardFilter from
 below, not from above

min() made the first reward of zero (and any constant reward with tau=1) a division
by zero and a variance rounded below zero a complex number; eps is the lower bound.
---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From 696d7ce1b6fc9279998d67584ee29648a9515c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 06/19] fix: SerialVectorEnv.spec is the spec of the first
 environment

---
 chainerrl/envs/serial_vector_env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..e9fd053 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,6 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
@@ -41,6 +40,10 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         for env in self.envs:
             env.close()
 
+    @property
+    def spec(self):
+        return self.envs[0].spec
+
     @property
     def num_envs(self):
         return len(self.envs)
-- 
2.43.0


From 0c196c119d8b52907b232fa00b20baaf88ecb14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 07/19] fix: linearly decayed epsilon-greedy with decay_steps=0
 does not divide by zero

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 84727ab4795d518e527f8d67eae0295400d768db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 08/19] fix: refuse attribute cycles when loading an agent
 instead of recursing forever

---
 chainerrl/agent.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..815fc0a 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -121,9 +121,19 @@ class AttributeSavingMixin(object):
                     getattr(self, attr))
         ancestors.pop()
 
+    # True while this object is being loaded
+    __loading = False
+
     def load(self, dirname):
         """Load internal states."""
-        self.__load(dirname, [])
+        # Nested objects are loaded by their own load(), which may be
+        # overridden, so cycles have to be detected across its calls.
+        assert not self.__loading, "Avoid an infinite loop"
+        self.__loading = True
+        try:
+            self.__load(dirname, [])
+        finally:
+            self.__loading = False
 
     def __load(self, dirname, ancestors):
         ancestors.append(self)
-- 
2.43.0


From ae0c230e0592d6e74d5662dc3aa9f333b12e6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 09/19] fix: learn statistics of integer inputs in
 EmpiricalNormalization

---
 chainerrl/links/empirical_normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..32d163b 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -64,7 +64,8 @@ class EmpiricalNormalization(chainer.Link):
         xp = self.xp
 
         self.count += count_x
-        rate = x.dtype.type(count_x / self.count)
+        # A Python float, as the dtype of x may be an integer one
+        rate = count_x / self.count
 
         mean_x = xp.mean(x, axis=self.batch_axis, keepdims=True)
         var_x = xp.var(x, axis=self.batch_axis, keepdims=True)
-- 
2.43.0


From 438f565e2c07b5a95f81a5d94a513fa4443c5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 10/19] fix: normalize with statistics of one moment in
 EmpiricalNormalization

---
 chainerrl/links/empirical_normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 32d163b..9bb9135 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -91,7 +91,8 @@ class EmpiricalNormalization(chainer.Link):
         """
 
         xp = self.xp
-        mean = xp.broadcast_to(self._mean, x.shape)
+        # Copied because experience() updates self._mean in place
+        mean = xp.broadcast_to(self._mean.copy(), x.shape)
         std_inv = xp.broadcast_to(self._std_inverse, x.shape)
 
         if update:
-- 
2.43.0


From 0fddbbdf5010d4e065872518938ba9824b57235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 11/19] fix: allow Variables with clip_threshold in
 EmpiricalNormalization

---
 chainerrl/links/empirical_normalization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 9bb9135..1091e6f 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -100,7 +100,10 @@ class EmpiricalNormalization(chainer.Link):
 
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
-            normalized = xp.clip(
+            # Unlike xp.clip, it can be applied to Variables
+            clip = (chainer.functions.clip
+                    if isinstance(normalized, chainer.Variable) else xp.clip)
+            normalized = clip(
                 normalized, -self.clip_threshold, self.clip_threshold)
         return normalized
 
-- 
2.43.0


From f8b705570d4176989cacd61fe23bb558c6160e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 12/19] fix: do not use a stale cache after loading
 EmpiricalNormalization

---
 chainerrl/links/empirical_normalization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 1091e6f..ddb61fd 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -48,6 +48,12 @@ class EmpiricalNormalization(chainer.Link):
 
         return self._cached_std_inverse
 
+    def serialize(self, serializer):
+        super(EmpiricalNormalization, self).serialize(serializer)
+
+        # clear cache because the variance may have been loaded
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From 7bc093e20ce0d6d671cbe47585a0ebeabb0118b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 13/19] fix: keep the variance of EmpiricalNormalization
 non-negative

---
 chainerrl/links/empirical_normalization.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index ddb61fd..cf87599 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -77,10 +77,9 @@ class EmpiricalNormalization(chainer.Link):
         var_x = xp.var(x, axis=self.batch_axis, keepdims=True)
         delta_mean = mean_x - self._mean
         self._mean += rate * delta_mean
-        self._var += rate * (
-            var_x - self._var
-            + delta_mean * (mean_x - self._mean)
-        )
+        # A sum of non-negative terms never becomes negative by rounding
+        self._var *= 1 - rate
+        self._var += rate * (var_x + (1 - rate) * delta_mean ** 2)
 
         # clear cache
         self._cached_std_inverse = None
-- 
2.43.0


From dd1a43c285241250eec2ad763f4e401b96faa341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 14/19] fix: evaluate_actions_as_distribution accepts a
 Variable of actions as documented

---
 chainerrl/action_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/action_value.py b/chainerrl/action_value.py
index 2e6a6b2..c705875 100644
--- a/chainerrl/action_value.py
+++ b/chainerrl/action_value.py
@@ -153,6 +153,8 @@ class DistributionalDiscreteActionValue(ActionValue):
             chainer.Variable: Return distributions. Its shape will be
                 (batch_size, n_atoms).
         """
+        if isinstance(actions, chainer.Variable):
+            actions = actions.array
         return self.q_dist[self.xp.arange(self.q_values.shape[0]), actions]
 
     def compute_advantage(self, actions):
-- 
2.43.0


From c22348981d6c9144ce46c2bf91fa0f783a5cbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 15/19] fix: DDPG discounts the target by the experience's own
 number of steps

---
 chainerrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..10f066e 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -174,6 +174,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_next_state = batch['next_state']
         batch_rewards = batch['reward']
         batch_terminal = batch['is_state_terminal']
+        batch_discount = batch['discount']
         batch_state = batch['state']
         batch_actions = batch['action']
         batchsize = len(batch_rewards)
@@ -194,7 +195,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch_discount * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From 600fbae5d7502b58e7f9bb5aec92a824e83ff067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 16/19] fix: unchain_backward uses collections.abc.Iterable,
 which exists on Python 3.10 and later

---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..952fe36 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+import collections.abc
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, collections.abc.Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From 899d453d20388874a20f7ca1ab07df81136c0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 17/19] fix: restoring a saved initial LSTM state resets the
 link

---
 chainerrl/recurrent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 952fe36..2d8fd18 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -118,7 +118,9 @@ def set_state(chain, state):
         if isinstance(link, chainer.links.LSTM):
             c, h = s
             # LSTM.set_state doesn't accept None state
-            if c is not None:
+            if c is None:
+                link.reset_state()
+            else:
                 link.set_state(c, h)
         elif isinstance(link, Recurrent):
             link.set_state(s)
-- 
2.43.0


From b5bd10c7205f75c3d31ca68df92c73fd13986dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 18/19] fix: A2C.batch_act chooses most probable actions when
 acting deterministically, as act does

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..e1c13a9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From 00ab94cc2c410037fac857da5e6f8ffbc8a3f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 19/19] fix: TRPO batches observations with its own
 batch_states in every update

_update_obs_normalizer, _update_vf and _update_policy called the module
function batch_states, so a batch_states given to the constructor was used
to act, by the line search and by the recurrent updates, but not by them.
---
 chainerrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..8a5a539 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -356,7 +356,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -376,7 +376,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -404,7 +405,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states(
+            [b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0

