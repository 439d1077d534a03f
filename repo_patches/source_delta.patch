From 0d0224ca36acee5e48201a8368a982812a061a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 01/55] fix: keep weight_norm in the options a vectorised
 prioritized buffer is rebuilt from

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..5dfaf88 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -40,7 +40,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # save weight directly in this class instead of self._meta
         self.weight = SegmentTree(size)
         self.__eps = np.finfo(np.float32).eps.item()
-        self.options.update(alpha=alpha, beta=beta)
+        self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
     def init_weight(self, index: int | np.ndarray) -> None:
-- 
2.43.0


From bf8e8fec32a516d69b55a60480743f997e5d4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 02/55] fix: reset the priorities together with the data of a
 prioritized buffer

---
 tianshou/data/buffer/prio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 5dfaf88..c360468 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -43,6 +43,13 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics)
+        self._max_prio = self._min_prio = 1.0
+        # the sub-buffers of a PrioritizedReplayBufferManager have no weights of their own
+        if "weight" in self.__dict__:
+            self.weight = SegmentTree(self.maxsize)
+
     def init_weight(self, index: int | np.ndarray) -> None:
         self.weight[index] = self._max_prio**self._alpha
 
-- 
2.43.0


From 9ddd41feffa8766ae577b7b70db179c9c4a8f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 03/55] fix: set_beta of a vectorised prioritized buffer
 changes the weights it returns

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From db4f4a670239c2a3b63de253e7555d37e3523c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 04/55] fix: re-link the sub-buffers of a copied, unpickled or
 loaded vectorised buffer to its storage

---
 tianshou/data/buffer/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..d3cab03 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -82,6 +82,13 @@ class ReplayBufferManager(ReplayBuffer):
         super().set_batch(batch)
         self._set_batch_for_children()
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # a copied or loaded storage is no longer shared with the sub-buffers: link them again
+        if len(self._meta.get_keys()) > 0:
+            for offset, buf in zip(self._offset, self.buffers, strict=True):
+                buf._meta = self._meta[offset : offset + buf.maxsize]
+
     def unfinished_index(self) -> np.ndarray:
         return np.concatenate(
             [
-- 
2.43.0


From a8d97a8f3e883da6b2317ca0353346ef643594ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 05/55] fix: shared-memory observations no longer change when
 the environment steps on

---
 tianshou/env/worker/subproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 7756f6e..4f74bd5 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -62,7 +62,8 @@ class ShArray:
 
     def get(self) -> np.ndarray:
         obj = self.arr.get_obj()
-        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape)  # type: ignore
+        # a copy, since the shared block is overwritten by the next observation
+        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape).copy()  # type: ignore
 
 
 def _setup_buf(space: gym.Space, ctx: BaseContext) -> dict | tuple | ShArray:
-- 
2.43.0


From 6265445cab5c68b12111f00cda88e4142bdfb0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 06/55] fix: scalar observations are written to the shared
 memory instead of being dropped

---
 tianshou/env/worker/subproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 4f74bd5..32168c5 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -85,8 +85,8 @@ def _worker(
         obs: dict | tuple | np.ndarray,
         buffer: dict | tuple | ShArray,
     ) -> None:
-        if isinstance(obs, np.ndarray) and isinstance(buffer, ShArray):
-            buffer.save(obs)
+        if isinstance(buffer, ShArray):
+            buffer.save(np.asarray(obs))
         elif isinstance(obs, tuple) and isinstance(buffer, tuple):
             for o, b in zip(obs, buffer, strict=True):
                 _encode_obs(o, b)
-- 
2.43.0


From 523bc65144f6db4c5583f9ae199e542a91ff6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 07/55] fix: resetting with a seed also seeds the action space
 of dummy and ray workers

---
 tianshou/env/worker/dummy.py | 2 ++
 tianshou/env/worker/ray.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index 0ed0b03..f0afb11 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -36,6 +36,8 @@ class DummyEnvWorker(EnvWorker):
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
+            if "seed" in kwargs:
+                super().seed(kwargs["seed"])
             self.result = self.env.reset(**kwargs)
         else:
             self.result = self.env.step(action)  # type: ignore
diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 76b8422..24b5ad8 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -57,6 +57,8 @@ class RayEnvWorker(EnvWorker):
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         # self.result is actually a handle
         if action is None:
+            if "seed" in kwargs:
+                super().seed(kwargs["seed"])
             self.result = self.env.reset.remote(**kwargs)
         else:
             self.result = self.env.step.remote(action)
-- 
2.43.0


From 83cebba4e6bbbadc8579b98200846266ddd32e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 08/55] fix: seeding a ray environment reaches the action space
 of the remote environment

---
 tianshou/env/worker/ray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 24b5ad8..e52cc6c 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -22,6 +22,9 @@ class _SetAttrWrapper(gym.Wrapper):
     def get_env_attr(self, key: str) -> Any:
         return getattr(self.env, key)
 
+    def seed_action_space(self, seed: int | None = None) -> None:
+        self.env.action_space.seed(seed)
+
 
 class RayEnvWorker(EnvWorker):
     """Ray worker used in RayVectorEnv."""
@@ -68,6 +71,8 @@ class RayEnvWorker(EnvWorker):
 
     def seed(self, seed: int | None = None) -> list[int] | None:
         super().seed(seed)
+        # the remote environment has its own action space
+        ray.get(self.env.seed_action_space.remote(seed))
         try:
             return ray.get(self.env.seed.remote(seed))
         except (AttributeError, NotImplementedError):
-- 
2.43.0


From acf3bbcebf350e274b3dc62725949569c0935bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 09/55] fix: waiting for more ray environments than are running
 no longer fails

---
 tianshou/env/worker/ray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index e52cc6c..6d16ba1 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -54,7 +54,11 @@ class RayEnvWorker(EnvWorker):
         timeout: float | None = None,
     ) -> list["RayEnvWorker"]:
         results = [x.result for x in workers]
-        ready_results, _ = ray.wait(results, num_returns=wait_num, timeout=timeout)
+        ready_results, _ = ray.wait(
+            results,
+            num_returns=min(wait_num, len(results)),
+            timeout=timeout,
+        )
         return [workers[results.index(result)] for result in ready_results]
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
-- 
2.43.0


From 16f0730a507b62dfd3d6049c0d56ca79f2a6b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 10/55] fix: refuse to seed asynchronous environments that are
 still stepping

---
 tianshou/env/venvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index e9309f9..6de35ff 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -332,6 +332,8 @@ class BaseVectorEnv:
             which a reproducer pass to "seed".
         """
         self._assert_is_not_closed()
+        if self.is_async:
+            self._assert_id(self._wrap_id())
         seed_list: list[None] | list[int]
         if seed is None:
             seed_list = [seed] * self.env_num
-- 
2.43.0


From 69251e4421d2080dd8dd39d5631bff390d7339e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 11/55] fix: PettingZooEnv.step no longer hands out its own
 reward list

---
 tianshou/env/pettingzoo_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/env/pettingzoo_env.py b/tianshou/env/pettingzoo_env.py
index 1967414..ac9fba3 100644
--- a/tianshou/env/pettingzoo_env.py
+++ b/tianshou/env/pettingzoo_env.py
@@ -117,7 +117,7 @@ class PettingZooEnv(AECEnv, ABC):
 
         for agent_id, reward in self.env.rewards.items():
             self.rewards[self.agent_idx[agent_id]] = reward
-        return obs, self.rewards, term, trunc, info
+        return obs, list(self.rewards), term, trunc, info
 
     def close(self) -> None:
         self.env.close()
-- 
2.43.0


From d64e1b2e7be6b9227dfca6a2a365a94b85c75148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 12/55] fix: merged episode hooks refuse only overlapping
 entries

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..a89c617 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1500,7 +1500,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From 3c336399c07b982d3f29399ac3118d7fc37cca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 13/55] fix: reset the recurrent state of finished environments
 also when it is a tensor

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index a89c617..9be1c1f 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1066,7 +1066,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            last_hidden_state_RH[env_ind_local_D] = 0
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From 50bdee314ce164178686dc17f4c2db4a07251340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 14/55] fix: refuse collection requests with both or negative
 n_step and n_episode

---
 tianshou/data/collector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 9be1c1f..78fe23a 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -496,7 +496,7 @@ class BaseCollector(Generic[TCollectStats], ABC):
         return collect_stats
 
     def _validate_n_step_n_episode(self, n_episode: int | None, n_step: int | None) -> None:
-        if not n_step and not n_episode:
+        if not n_step and not n_episode or n_step is not None and n_episode is not None:
             raise ValueError(
                 f"Only one of n_step and n_episode should be set to a value larger than zero "
                 f"but got {n_step=}, {n_episode=}.",
@@ -505,6 +505,10 @@ class BaseCollector(Generic[TCollectStats], ABC):
             raise ValueError(
                 "Exactly one of n_step and n_episode should be set but got None for both.",
             )
+        if (n_step or n_episode or 0) < 0:
+            raise ValueError(
+                f"n_step and n_episode should be positive but got {n_step=}, {n_episode=}.",
+            )
         if n_step and n_step % self.env_num != 0:
             warnings.warn(
                 f"{n_step=} is not a multiple of ({self.env_num=}), "
-- 
2.43.0


From 344b10276ec9ddebed49b3f2d70533a4d603f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 15/55] fix: every collector accumulates its collect time

---
 tianshou/data/collector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 78fe23a..40f6034 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -478,6 +478,7 @@ class BaseCollector(Generic[TCollectStats], ABC):
                 gym_reset_kwargs=gym_reset_kwargs,
             )
         collect_time = time.time() - pre_collect_time
+        self.collect_time += collect_time
         collect_stats.set_collect_time(collect_time, update_collect_speed=True)
         collect_stats.refresh_all_sequence_stats()
 
@@ -1172,8 +1173,6 @@ class AsyncCollector(Collector[CollectStats]):
         render: float | None = None,
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> CollectStats:
-        start_time = time.time()
-
         step_count = 0
         num_collected_episodes = 0
         episode_returns: list[float] = []
@@ -1347,8 +1346,6 @@ class AsyncCollector(Collector[CollectStats]):
         # generate statistics
         self.collect_step += step_count
         self.collect_episode += num_collected_episodes
-        collect_time = max(time.time() - start_time, 1e-9)
-        self.collect_time += collect_time
 
         # persist for future collect iterations
         self._ready_env_ids_R = ready_env_ids_R
-- 
2.43.0


From 4f1738ef7afe4b619807bd8dde5988384e0b82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 16/55] fix: resetting an asynchronous collector waits for all
 running environments

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 40f6034..f199607 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1160,7 +1160,7 @@ class AsyncCollector(Collector[CollectStats]):
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
         # we need to step through the envs and wait until they are ready to be able to interact with them
-        if self.env.waiting_id:
+        while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
-- 
2.43.0


From fd787049423b0757d011899b8525de1910aa5dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 17/55] fix: resetting the environments of an asynchronous
 collector drops its carried-over state

---
 tianshou/data/collector.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index f199607..8974fa3 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1139,20 +1139,11 @@ class AsyncCollector(Collector[CollectStats]):
         :return: The initial observation and info from the environment.
         """
         # This sets the _pre_collect attrs
-        result = super().reset(
+        return super().reset(
             reset_buffer=reset_buffer,
             reset_stats=reset_stats,
             gym_reset_kwargs=gym_reset_kwargs,
         )
-        # Keep in sync with init!
-        self._ready_env_ids_R = np.arange(self.env_num)
-        # E denotes the number of parallel environments self.env_num
-        self._current_obs_in_all_envs_EO = copy(self._pre_collect_obs_RO)
-        self._current_info_in_all_envs_E = copy(self._pre_collect_info_R)
-        self._current_hidden_state_in_all_envs_EH = copy(self._pre_collect_hidden_state_RH)
-        self._current_action_in_all_envs_EA = np.empty(self.env_num)
-        self._current_policy_in_all_envs_E = None
-        return result
 
     @override
     def reset_env(
@@ -1162,7 +1153,14 @@ class AsyncCollector(Collector[CollectStats]):
         # we need to step through the envs and wait until they are ready to be able to interact with them
         while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
-        return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
+        result = super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
+        self._ready_env_ids_R = np.arange(self.env_num)
+        self._current_obs_in_all_envs_EO = copy(self._pre_collect_obs_RO)
+        self._current_info_in_all_envs_E = copy(self._pre_collect_info_R)
+        self._current_hidden_state_in_all_envs_EH = copy(self._pre_collect_hidden_state_RH)
+        self._current_action_in_all_envs_EA = np.empty(self.env_num)
+        self._current_policy_in_all_envs_E = None
+        return result
 
     @override
     def _collect(
-- 
2.43.0


From a39e1eb64e3dab0d50e2d467e3c060145276acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 18/55] fix: asynchronous collection with vector actions and
 without recurrent or policy state

---
 tianshou/data/collector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 8974fa3..5cf8b0e 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1227,6 +1227,11 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
+            if self._current_action_in_all_envs_EA.shape[1:] != collect_batch_R.act.shape[1:]:
+                # first iteration, all envs are ready
+                self._current_action_in_all_envs_EA = np.empty(
+                    (self.env_num, *collect_batch_R.act.shape[1:]),
+                )
             self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
             if self._current_policy_in_all_envs_E:
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
@@ -1267,7 +1272,9 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
+                    if self._current_policy_in_all_envs_E
+                    else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1298,7 +1305,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
-- 
2.43.0


From b2452bd39cff5298442a073193fed7ae7ae96acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 19/55] fix: unpickling a batch installs every key whatever its
 name

---
 tianshou/data/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..d67b2f9 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -709,7 +709,7 @@ class Batch(BatchProtocol):
         At this point, self is an empty Batch instance that has not been
         initialized, so it can safely be initialized by the pickle state.
         """
-        self.__init__(**state)  # type: ignore
+        self.__init__(state)  # type: ignore
 
     @overload
     def __getitem__(self, index: str) -> Any:
-- 
2.43.0


From 37f6b57156eea3a32d2d0beb22d60138a431d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 20/55] fix: calibration returns are stored at the positions of
 their transitions

---
 tianshou/policy/imitation/cql.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 66438c7..d6cd4a5 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -227,10 +227,17 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
                 gamma=self.gamma,
                 gae_lambda=1.0,
             )
+            # sample(0) returns the transitions in their order of insertion, whereas
+            # an entry of _meta has one element per storage location of the buffer
+            calibration_returns = np.zeros(
+                (buffer.maxsize, *returns.shape[1:]),
+                dtype=returns.dtype,
+            )
+            calibration_returns[indices] = returns
             # TODO: don't access _meta directly
             buffer._meta = cast(
                 RolloutBatchProtocol,
-                Batch(**buffer._meta.__dict__, calibration_returns=returns),
+                Batch(**buffer._meta.__dict__, calibration_returns=calibration_returns),
             )
         return buffer
 
-- 
2.43.0


From 7aab266b66ded93e43b83464d59ad9e73376e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 21/55] fix: the rewards of a multi-agent buffer are restored
 also when processing fails

---
 tianshou/policy/multiagent/mapolicy.py | 36 ++++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..5b75e70 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -141,23 +141,25 @@ class MultiAgentPolicyManager(BasePolicy):
             # Since we do not override buffer.__setattr__, here we use _meta to
             # change buffer.rew, otherwise buffer.rew = Batch() has no effect.
             save_rew, buffer._meta.rew = buffer.rew, Batch()  # type: ignore
-        for agent, policy in self.policies.items():
-            agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
-            if len(agent_index) == 0:
-                results[agent] = cast(RolloutBatchProtocol, Batch())
-                continue
-            tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
-            if has_rew:
-                tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
-                buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
-            if not hasattr(tmp_batch.obs, "mask"):
-                if hasattr(tmp_batch.obs, "obs"):
-                    tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
-                    tmp_batch.obs_next = tmp_batch.obs_next.obs
-            results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
-        if has_rew:  # restore from save_rew
-            buffer._meta.rew = save_rew
+        try:
+            for agent, policy in self.policies.items():
+                agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
+                if len(agent_index) == 0:
+                    results[agent] = cast(RolloutBatchProtocol, Batch())
+                    continue
+                tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
+                if has_rew:
+                    tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
+                    buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
+                if not hasattr(tmp_batch.obs, "mask"):
+                    if hasattr(tmp_batch.obs, "obs"):
+                        tmp_batch.obs = tmp_batch.obs.obs
+                    if hasattr(tmp_batch.obs_next, "obs"):
+                        tmp_batch.obs_next = tmp_batch.obs_next.obs
+                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+        finally:
+            if has_rew:  # restore from save_rew
+                buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
-- 
2.43.0


From 77aaea7cc71bbf8d4882a81866ba1dc631d74750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 22/55] fix: stopping within an epoch uses the reward metric
 and saves the policy as the best one

---
 tianshou/trainer/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..ce613cf 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -563,13 +563,17 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
                     should_stop_training = True
+                    self.best_epoch = self.epoch
                     self.best_reward = test_result.returns_stat.mean
                     self.best_reward_std = test_result.returns_stat.std
                     self.best_score = self.compute_score_fn(test_result)
+                    if self.save_best_fn:
+                        self.save_best_fn(self.policy)
 
         return should_stop_training
 
-- 
2.43.0


From 3d1e9831db2cf1d541068369b7153b883db1a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 23/55] fix: resetting a trainer also resets its gradient step,
 episode and update time counters

---
 tianshou/trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index ce613cf..93c921a 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -264,6 +264,9 @@ class BaseTrainer(ABC):
         """Initialize or reset the instance to yield a new iterator from zero."""
         self.is_run = False
         self.env_step = 0
+        self.env_episode = 0
+        self._gradient_step = 0
+        self.policy_update_time = 0.0
         if self.resume_from_log:
             (
                 self.start_epoch,
-- 
2.43.0


From ea80617d0c22a00117743379be571aa5c891b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 24/55] fix: a policy is no longer marked as updating after an
 update that failed

---
 tianshou/policy/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 066a23a..78daf64 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -542,13 +542,15 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         start_time = time.time()
         batch, indices = buffer.sample(sample_size)
         self.updating = True
-        batch = self.process_fn(batch, buffer, indices)
-        with torch_train_mode(self):
-            training_stat = self.learn(batch, **kwargs)
-        self.post_process_fn(batch, buffer, indices)
-        if self.lr_scheduler is not None:
-            self.lr_scheduler.step()
-        self.updating = False
+        try:
+            batch = self.process_fn(batch, buffer, indices)
+            with torch_train_mode(self):
+                training_stat = self.learn(batch, **kwargs)
+            self.post_process_fn(batch, buffer, indices)
+            if self.lr_scheduler is not None:
+                self.lr_scheduler.step()
+        finally:
+            self.updating = False
         training_stat.train_time = time.time() - start_time
         return training_stat
 
-- 
2.43.0


From 20f3dcfa897031b0d3615b20f5cc37aa46396c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 25/55] fix: the intrinsic reward is no longer added to the
 saved original reward

---
 tianshou/policy/modelbased/icm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 9a603b7..0d5ef00 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -133,7 +133,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         """
         mse_loss, act_hat = self.model(batch.obs, batch.act, batch.obs_next)
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
-        batch.rew += to_numpy(mse_loss * self.reward_scale)
+        # not in place: orig_rew is the same array
+        batch.rew = batch.rew + to_numpy(mse_loss * self.reward_scale)
         return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
-- 
2.43.0


From e5a527b849a884d90958c143a54aa90097c43edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 26/55] fix: a multi-agent policy remembers its own training
 mode

---
 tianshou/policy/multiagent/mapolicy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 5b75e70..877669a 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -283,6 +283,7 @@ class MultiAgentPolicyManager(BasePolicy):
     # No need for a similar eval function, as eval internally uses the train function.
     def train(self, mode: bool = True) -> Self:
         """Set each internal policy in training mode."""
+        self.training = mode
         for policy in self.policies.values():
             policy.train(mode)
         return self
-- 
2.43.0


From 87ab737e87c568b8b0f609fafe16ef0a2f675a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 27/55] fix: policies inside a multi-agent or curiosity policy
 know when they are within a training step

---
 tianshou/policy/modelbased/icm.py      | 10 +++++++---
 tianshou/policy/multiagent/mapolicy.py | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 0d5ef00..f055015 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -16,6 +16,7 @@ from tianshou.policy.base import (
     TTrainingStats,
 )
 from tianshou.utils.net.discrete import IntrinsicCuriosityModule
+from tianshou.utils.torch_utils import policy_within_training_step
 
 
 class ICMTrainingStats(TrainingStatsWrapper):
@@ -103,7 +104,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
             Please refer to :meth:`~tianshou.policy.BasePolicy.forward` for
             more detailed explanation.
         """
-        return self.policy.forward(batch, state, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.forward(batch, state, **kwargs)
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
 
@@ -135,7 +137,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
         # not in place: orig_rew is the same array
         batch.rew = batch.rew + to_numpy(mse_loss * self.reward_scale)
-        return self.policy.process_fn(batch, buffer, indices)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
         self,
@@ -157,7 +160,8 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         *args: Any,
         **kwargs: Any,
     ) -> ICMTrainingStats:
-        training_stat = self.policy.learn(batch, **kwargs)
+        with policy_within_training_step(self.policy, self.is_within_training_step):
+            training_stat = self.policy.learn(batch, **kwargs)
         self.optim.zero_grad()
         act_hat = batch.policy.act_hat
         act = to_torch(batch.act, dtype=torch.long, device=act_hat.device)
diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 877669a..f108421 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -8,6 +8,7 @@ from tianshou.data.batch import BatchProtocol, IndexType
 from tianshou.data.types import ActBatchProtocol, ObsBatchProtocol, RolloutBatchProtocol
 from tianshou.policy import BasePolicy
 from tianshou.policy.base import TLearningRateScheduler, TrainingStats
+from tianshou.utils.torch_utils import policy_within_training_step
 
 try:
     from tianshou.env.pettingzoo_env import PettingZooEnv
@@ -156,7 +157,8 @@ class MultiAgentPolicyManager(BasePolicy):
                         tmp_batch.obs = tmp_batch.obs.obs
                     if hasattr(tmp_batch.obs_next, "obs"):
                         tmp_batch.obs_next = tmp_batch.obs_next.obs
-                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+                with policy_within_training_step(policy, self.is_within_training_step):
+                    results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
         finally:
             if has_rew:  # restore from save_rew
                 buffer._meta.rew = save_rew
@@ -235,11 +237,12 @@ class MultiAgentPolicyManager(BasePolicy):
                     tmp_batch.obs = tmp_batch.obs.obs
                 if hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
-            out = policy(
-                batch=tmp_batch,
-                state=None if state is None else state[agent_id],
-                **kwargs,
-            )
+            with policy_within_training_step(policy, self.is_within_training_step):
+                out = policy(
+                    batch=tmp_batch,
+                    state=None if state is None else state[agent_id],
+                    **kwargs,
+                )
             act = out.act
             each_state = out.state if (hasattr(out, "state") and out.state is not None) else Batch()
             results.append((True, agent_index, out, act, each_state))
@@ -275,7 +278,8 @@ class MultiAgentPolicyManager(BasePolicy):
         for agent_id, policy in self.policies.items():
             data = batch[agent_id]
             if len(data.get_keys()) != 0:
-                train_stats = policy.learn(batch=data, **kwargs)
+                with policy_within_training_step(policy, self.is_within_training_step):
+                    train_stats = policy.learn(batch=data, **kwargs)
                 agent_id_to_stats[agent_id] = train_stats
         return MapTrainingStats(agent_id_to_stats)
 
-- 
2.43.0


From f83aa205acb16e3f9c34f2d09684ef0137096e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 28/55] fix: the writer inside a W&B logger gets the configured
 save interval and flush setting

---
 tianshou/utils/logger/wandb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 9172bf5..3368e08 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -110,8 +110,9 @@ class WandbLogger(BaseLogger):
             self.train_interval,
             self.test_interval,
             self.update_interval,
-            self.save_interval,
-            self.write_flush,
+            info_interval=self.info_interval,
+            save_interval=self.save_interval,
+            write_flush=self.write_flush,
         )
 
     def write(self, step_type: str, step: int, data: dict[str, VALID_LOG_VALS_TYPE]) -> None:
-- 
2.43.0


From dca65c4216dd801ff38fd9706f1cc86cad7223c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 29/55] fix: moving averages exclude every NaN

---
 tianshou/utils/statistics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..e59f9ac 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -27,7 +27,6 @@ class MovAvg:
         super().__init__()
         self.size = size
         self.cache: list[np.number] = []
-        self.banned = [np.inf, np.nan, -np.inf]
 
     def add(
         self,
@@ -43,7 +42,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From b13d921dd561a261dc003b2096e78a5e788fc992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 30/55] fix: REDQ tunes its own temperature parameter

learn() referred to attributes that do not exist when alpha is tuned automatically.
---
 tianshou/policy/modelfree/redq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..09e48ea 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -217,8 +217,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
-- 
2.43.0


From 87363862e45ef8ce4d3fdae3b620ce1e58a770cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 31/55] fix: BCQ's target networks are in evaluation mode and
 its VAE follows the policy's mode

---
 tianshou/policy/imitation/bcq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 991c4aa..2addd23 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -92,16 +92,19 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         )
         self.actor_perturbation = actor_perturbation
         self.actor_perturbation_target = copy.deepcopy(self.actor_perturbation)
+        self.actor_perturbation_target.eval()
         self.actor_perturbation_optim = actor_perturbation_optim
 
         self.critic = critic
         self.critic_target = copy.deepcopy(self.critic)
+        self.critic_target.eval()
         self.critic_optim = critic_optim
 
         critic2 = critic2 or copy.deepcopy(critic)
         critic2_optim = critic2_optim or clone_optimizer(critic_optim, critic2.parameters())
         self.critic2 = critic2
         self.critic2_target = copy.deepcopy(self.critic2)
+        self.critic2_target.eval()
         self.critic2_optim = critic2_optim
 
         self.vae = vae
@@ -120,6 +123,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         self.actor_perturbation.train(mode)
         self.critic.train(mode)
         self.critic2.train(mode)
+        self.vae.train(mode)
         return self
 
     def forward(
-- 
2.43.0


From d399710130f4fd87584c5270f127f821e2f99623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 32/55] fix: switching discrete CRR to training mode leaves its
 target networks in evaluation mode

---
 tianshou/policy/imitation/discrete_crr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 9c54129..a83e522 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -1,6 +1,6 @@
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import torch
@@ -100,6 +100,13 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         self._beta = beta
         self._min_q_weight = min_q_weight
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target networks."""
+        self.training = mode
+        self.actor.train(mode)
+        self.critic.train(mode)
+        return self
+
     def sync_weight(self) -> None:
         self.actor_old.load_state_dict(self.actor.state_dict())
         self.critic_old.load_state_dict(self.critic.state_dict())
-- 
2.43.0


From ca75ea367fd11c1bd726287c10ee0d3ce3f98a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 33/55] fix: FQF's fraction proposal network follows the
 policy's mode

---
 tianshou/policy/modelfree/fqf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/fqf.py b/tianshou/policy/modelfree/fqf.py
index 9c87f9c..981c93a 100644
--- a/tianshou/policy/modelfree/fqf.py
+++ b/tianshou/policy/modelfree/fqf.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar, cast
+from typing import Any, Literal, Self, TypeVar, cast
 
 import gymnasium as gym
 import numpy as np
@@ -94,6 +94,12 @@ class FQFPolicy(QRDQNPolicy[TFQFTrainingStats]):
         self.ent_coef = ent_coef
         self.fraction_optim = fraction_optim
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target network."""
+        super().train(mode)
+        self.fraction_model.train(mode)
+        return self
+
     def _target_q(self, buffer: ReplayBuffer, indices: np.ndarray) -> torch.Tensor:
         obs_next_batch = Batch(
             obs=buffer[indices].obs_next,
-- 
2.43.0


From f8beb2d7d3ec3d0ce4cb80a171d2a3056429fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 34/55] fix: BDQ bootstraps from steps that did not terminate

---
 tianshou/policy/modelfree/bdq.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index d7196a9..82ec49b 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -124,11 +124,9 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         with torch.no_grad():
             target_q_torch = self._target_q(buffer, indice)  # (bsz, ?)
         target_q = to_numpy(target_q_torch)
-        end_flag = buffer.done.copy()
-        end_flag[buffer.unfinished_index()] = True
-        end_flag = end_flag[indice]
+        value_mask = self.value_mask(buffer, indice)
         mean_target_q = np.mean(target_q, -1) if len(target_q.shape) > 1 else target_q
-        _target_q = rew + gamma * mean_target_q * (1 - end_flag)
+        _target_q = rew + gamma * mean_target_q * value_mask
         target_q = np.repeat(_target_q[..., None], self.num_branches, axis=-1)
         target_q = np.repeat(target_q[..., None], self._action_per_branch, axis=-1)
 
-- 
2.43.0


From e294cd5aa098c526c3e9b2284aea2977fb771100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 35/55] fix: BDQ discounts with the configured factor

---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 82ec49b..d1d2553 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -142,7 +142,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         indices: np.ndarray,
     ) -> BatchWithReturnsProtocol:
         """Compute the 1-step return for BDQ targets."""
-        return self._compute_return(batch, buffer, indices)
+        return self._compute_return(batch, buffer, indices, self.gamma)
 
     def forward(
         self,
-- 
2.43.0


From 8aa4bc6e5e990ff7d4769a48a9bd81d689f78e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 36/55] fix: BCQ bootstraps from steps that did not terminate

---
 tianshou/policy/imitation/bcq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 2addd23..6d16772 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -201,7 +201,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
 
             target_Q = (
                 batch.rew.reshape(-1, 1)
-                + torch.logical_not(batch.done).reshape(-1, 1) * self.gamma * target_Q
+                + torch.logical_not(batch.terminated).reshape(-1, 1) * self.gamma * target_Q
             )
             target_Q = target_Q.float()
 
-- 
2.43.0


From ebc87d0546440f7b16ac8c293abcc201afb9aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 37/55] fix: CQL bootstraps from steps that did not terminate

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index d6cd4a5..8408842 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -287,7 +287,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
             target_Q = torch.min(target_Q1, target_Q2) - self.alpha * new_log_pi
 
-            target_Q = rew + torch.logical_not(batch.done) * self.gamma * target_Q.flatten()
+            target_Q = rew + torch.logical_not(batch.terminated) * self.gamma * target_Q.flatten()
             target_Q = target_Q.float()
             # shape: (batch_size)
 
-- 
2.43.0


From bed49bb712e828dbaf0ca46e020f4130e044ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 38/55] fix: CQL draws its random actions from the configured
 action range

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 8408842..61ffe40 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -302,7 +302,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         # CQL
         random_actions = (
             torch.FloatTensor(batch_size * self.num_repeat_actions, act.shape[-1])
-            .uniform_(-self.min_action, self.max_action)
+            .uniform_(self.min_action, self.max_action)
             .to(self.device)
         )
 
-- 
2.43.0


From 47caf26bae955ba23e36e92a63bb1dceab738302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 39/55] fix: discrete CRR bootstraps from steps that did not
 terminate

---
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index a83e522..bdddcca 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -130,7 +130,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             q_t_target = self.critic_old(batch.obs_next)
             rew = to_torch_as(batch.rew, q_t_target)
             expected_target_q = (q_t_target * target_m.probs).sum(-1, keepdim=True)
-            expected_target_q[batch.done > 0] = 0.0
+            expected_target_q[batch.terminated > 0] = 0.0
             target = rew.unsqueeze(1) + self.gamma * expected_target_q
         critic_loss = 0.5 * F.mse_loss(qa_t, target)
         # Actor loss
-- 
2.43.0


From d3a78e08bc912473e1c085e380b693e2d49f135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 40/55] fix: C51 evaluates the value distribution n steps ahead

---
 tianshou/policy/modelfree/c51.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/c51.py b/tianshou/policy/modelfree/c51.py
index 5bfdba0..3c806fe 100644
--- a/tianshou/policy/modelfree/c51.py
+++ b/tianshou/policy/modelfree/c51.py
@@ -6,7 +6,7 @@ import numpy as np
 import torch
 
 from tianshou.data import Batch, ReplayBuffer
-from tianshou.data.types import RolloutBatchProtocol
+from tianshou.data.types import BatchWithReturnsProtocol, RolloutBatchProtocol
 from tianshou.policy import DQNPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.dqn import DQNTrainingStats
@@ -92,6 +92,24 @@ class C51Policy(DQNPolicy[TC51TrainingStats], Generic[TC51TrainingStats]):
         )
         self.delta_z = (v_max - v_min) / (num_atoms - 1)
 
+    def process_fn(
+        self,
+        batch: RolloutBatchProtocol,
+        buffer: ReplayBuffer,
+        indices: np.ndarray,
+    ) -> BatchWithReturnsProtocol:
+        """Compute the n-step return of the support's atoms.
+
+        The distribution the returns belong to is that of the state after n steps, so
+        `obs_next` of the batch is set accordingly.
+        """
+        batch_with_returns = super().process_fn(batch, buffer, indices)
+        if self.n_step > 1:
+            for _ in range(self.n_step - 1):
+                indices = buffer.next(indices)
+            batch_with_returns.obs_next = buffer[indices].obs_next  # obs_next: s_{t+n}
+        return batch_with_returns
+
     def _target_q(self, buffer: ReplayBuffer, indices: np.ndarray) -> torch.Tensor:
         return self.support.repeat(len(indices), 1)  # shape: [bsz, num_atoms]
 
-- 
2.43.0


From 110d8d68e8c81102e9c7dcb06c1ab7154d19ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 41/55] fix: masked actions can never win whatever the
 magnitude of the scores

---
 tianshou/policy/modelfree/dqn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index e0ada07..93d6336 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -158,9 +158,8 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         """Compute the q value based on the network's raw output and action mask."""
         if mask is not None:
-            # the masked q value should be smaller than logits.min()
-            min_value = logits.min() - logits.max() - 1.0
-            logits = logits + to_torch_as(1 - mask, logits) * min_value
+            # the masked q value must be smaller than any other, whatever their magnitude
+            logits = logits.masked_fill(to_torch_as(1 - mask, logits) > 0, -torch.inf)
         return logits
 
     def forward(
-- 
2.43.0


From f61b9b82408dd11c8cd4e38b94952270961efe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 42/55] fix: pass the configured number of episodes per collect
 step to the trainer

---
 tianshou/highlevel/agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/highlevel/agent.py b/tianshou/highlevel/agent.py
index 2ad5339..2b13950 100644
--- a/tianshou/highlevel/agent.py
+++ b/tianshou/highlevel/agent.py
@@ -196,6 +196,7 @@ class OnPolicyAgentFactory(AgentFactory, ABC):
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             save_best_fn=policy_persistence.get_save_best_fn(world),
             save_checkpoint_fn=policy_persistence.get_save_checkpoint_fn(world),
             logger=world.logger,
@@ -238,6 +239,7 @@ class OffPolicyAgentFactory(AgentFactory, ABC):
             max_epoch=sampling_config.num_epochs,
             step_per_epoch=sampling_config.step_per_epoch,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             save_best_fn=policy_persistence.get_save_best_fn(world),
-- 
2.43.0


From 2a0b329554b3014b781ba881fd0eec6769ab3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 43/55] fix: an experiment returns the result of its training

---
 tianshou/highlevel/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index c0be23d..721bc60 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -435,7 +435,7 @@ class Experiment(ToStringMixin, DataclassPPrintMixin):
                     )
 
                 log.info("Starting training")
-                world.trainer.run()
+                trainer_result = world.trainer.run()
                 if use_persistence:
                     world.logger.finalize()
                 log.info(f"Training result:\n{pformat(trainer_result)}")
-- 
2.43.0


From 89c77f7b5c9cbbc4862cdf7e891f50a874345eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 44/55] fix: apply the configured save interval to tensorboard
 loggers

---
 tianshou/highlevel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/logger.py b/tianshou/highlevel/logger.py
index f0e3e59..6bf712c 100644
--- a/tianshou/highlevel/logger.py
+++ b/tianshou/highlevel/logger.py
@@ -77,7 +77,7 @@ class LoggerFactoryDefault(LoggerFactory):
                 return logger
             case "tensorboard":
                 writer = self._create_writer(log_dir)
-                return TensorboardLogger(writer)
+                return TensorboardLogger(writer, save_interval=self.save_interval)
             case _:
                 raise ValueError(f"Unknown logger type '{self.logger_type}'")
 
-- 
2.43.0


From e2cf35ea9f916a0aff97544168662f34dff127f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 45/55] fix: default actors for discrete actions use the
 configured hidden layers

---
 tianshou/highlevel/module/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index 4a1fe5c..edec2ea 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -140,8 +140,9 @@ class ActorFactoryDefault(ActorFactory):
                     raise ValueError(self.continuous_actor_type)
         elif env_type == EnvType.DISCRETE:
             factory = ActorFactoryDiscreteNet(
-                self.DEFAULT_HIDDEN_SIZES,
+                self.hidden_sizes,
                 softmax_output=self.discrete_softmax,
+                activation=self.hidden_activation,
             )
         else:
             raise ValueError(f"{env_type} not supported")
-- 
2.43.0


From 0d36415d87f19dcf9b2ef1b4ff1e254a96cb26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 46/55] fix: an experiment that was stored and loaded still
 shares the actor's network with the critic

---
 tianshou/highlevel/module/actor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index edec2ea..79eb1be 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -41,6 +41,10 @@ class ActorFuture:
 
     actor: BaseActor | nn.Module | None = None
 
+    def __getstate__(self) -> dict:
+        # the actor itself is transient; objects sharing this future continue to share it when stored and loaded together
+        return {"actor": None}
+
 
 class ActorFutureProviderProtocol(Protocol):
     def get_actor_future(self) -> ActorFuture:
@@ -269,14 +273,9 @@ class ActorFactoryTransientStorageDecorator(ActorFactory):
         self.actor_factory = actor_factory
         self._actor_future = actor_future
 
-    def __getstate__(self) -> dict:
-        d = dict(self.__dict__)
-        del d["_actor_future"]
-        return d
-
     def __setstate__(self, state: dict) -> None:
         self.__dict__ = state
-        self._actor_future = ActorFuture()
+        self.__dict__.setdefault("_actor_future", ActorFuture())
 
     def _tostring_excludes(self) -> list[str]:
         return [*super()._tostring_excludes(), "_actor_future"]
-- 
2.43.0


From 05d8e0cf8d1759ecc5bc5e4498b5c3968ab57f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:50 +0000
Subject: [PATCH 47/55] fix: the high-level curiosity wrapper accepts
 environments with discrete actions

---
 tianshou/highlevel/params/policy_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/params/policy_wrapper.py b/tianshou/highlevel/params/policy_wrapper.py
index 43cbfed..423401e 100644
--- a/tianshou/highlevel/params/policy_wrapper.py
+++ b/tianshou/highlevel/params/policy_wrapper.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Sequence
 from typing import Generic, TypeVar
 
+import numpy as np
 from sensai.util.string import ToStringMixin
 
 from tianshou.highlevel.env import Environments
@@ -55,8 +56,9 @@ class PolicyWrapperFactoryIntrinsicCuriosity(
     ) -> ICMPolicy:
         feature_net = self.feature_net_factory.create_intermediate_module(envs, device)
         action_dim = envs.get_action_shape()
-        if not isinstance(action_dim, int):
+        if not isinstance(action_dim, int | np.integer):
             raise ValueError(f"Environment action shape must be an integer, got {action_dim}")
+        action_dim = int(action_dim)
         feature_dim = feature_net.output_dim
         icm_net = IntrinsicCuriosityModule(
             feature_net.module,
-- 
2.43.0


From d22a6362514983092591349f680faa8272729a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:17 +0000
Subject: [PATCH 48/55] fix: REDQ reports its temperature loss as a number

---
 tianshou/policy/modelfree/redq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 09e48ea..d4fe6b6 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -12,6 +12,7 @@ from tianshou.exploration import BaseNoise
 from tianshou.policy import DDPGPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.ddpg import DDPGTrainingStats
+from tianshou.utils.conversion import to_optional_float
 from tianshou.utils.net.continuous import ActorProb
 
 
@@ -235,5 +236,5 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             actor_loss=self._last_actor_loss,
             critic_loss=critic_loss.item(),
             alpha=self.alpha.item() if isinstance(self.alpha, torch.Tensor) else self.alpha,
-            alpha_loss=alpha_loss,
+            alpha_loss=to_optional_float(alpha_loss),
         )
-- 
2.43.0


From c57066eb94351350d9d679dc7d993a7f7c346a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 49/55] fix: LoggedCollectStats.from_data_dict failed on
 entries that are not fields

---
 tianshou/evaluation/rliable_evaluation_hl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 2b8ff51..022cfd8 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -45,12 +45,13 @@ class LoggedCollectStats:
         Converts SequenceSummaryStats from dict format to dataclass format and ignores fields that are not present.
         """
         field_names = [f.name for f in fields(cls)]
-        for k, v in data.items():
-            if k not in field_names:
-                data.pop(k)
-            if isinstance(v, dict):
-                data[k] = LoggedSummaryData(**v)
-        return cls(**data)
+        # not in place: data belongs to the caller, and a dictionary must not change its size during iteration
+        field_values = {
+            k: LoggedSummaryData(**v) if isinstance(v, dict) else v
+            for k, v in data.items()
+            if k in field_names
+        }
+        return cls(**field_values)
 
 
 @dataclass
-- 
2.43.0


From 4a19f438385f0deb2a63353f3bf0f2b1fc3afb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 50/55] fix: load_and_eval_experiments with scope "both"
 ignored show_plots and save_plots

---
 tianshou/evaluation/rliable_evaluation_hl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 022cfd8..21f9c9a 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -351,7 +351,7 @@ def load_and_eval_experiments(
     rliable_result = RLiableExperimentResult.load_from_disk(log_dir, max_env_step=max_env_step)
     if scope == "both":
         for scope in [DataScope.TEST, DataScope.TRAIN]:
-            rliable_result.eval_results(show_plots=True, save_plots=True, scope=scope)
+            rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     else:
         rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     return rliable_result
-- 
2.43.0


From 7c0d442662f13bda5f931b19d2e3e8dbbf6a5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:03 +0000
Subject: [PATCH 51/55] fix: TRPO kept the last rejected parameters when its
 line search failed

---
 tianshou/policy/modelfree/trpo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index e7aa5cf..639afbc 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -165,7 +165,8 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                         if i < self.max_backtracks - 1:
                             step_size = step_size * self.backtrack_coeff
                         else:
-                            self._set_from_flat_params(self.actor, new_flat_params)
+                            # no step was accepted: the actor keeps its parameters
+                            self._set_from_flat_params(self.actor, flat_params)
                             step_size = torch.tensor([0.0])
                             warnings.warn(
                                 "Line search failed! It seems hyperparamters"
-- 
2.43.0


From ff3f913577babbc42915b5c69bb0f95087461dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 52/55] fix: HER without stored next observations computed
 rewards for the old goals

With ignore_obs_next=True the rewards of relabelled episodes were computed
from the observations of the next positions as stored, i.e. with the goals
that were about to be replaced.
---
 tianshou/data/buffer/her.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..0368616 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,10 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = future_obs.achieved_goal[
+                None,
+                her_ep_indices,
+            ]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From 6f335d1693f8d954a0fbcab4e4d87eb55de947ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:09 +0000
Subject: [PATCH 53/55] fix: Batch.__iadd__ adds values of the same key, not of
 the same position

---
 tianshou/data/batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index d67b2f9..8cca662 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,15 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if self.__dict__.keys() != other.__dict__.keys():
+                raise ValueError(
+                    f"Only Batches with the same keys can be added, "
+                    f"got {list(self.__dict__)} and {list(other.__dict__)}.",
+                )
+            for batch_key, obj in self.__dict__.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other.__dict__[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From 754dcc1921cc8a5bebcd39786a5c14ab79947f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:09 +0000
Subject: [PATCH 54/55] fix: ActorProb returns the hidden state of its
 preprocess net instead of the one it was given

---
 tianshou/utils/net/continuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index a0b85ed..722bfeb 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -258,7 +258,7 @@ class ActorProb(BaseActor):
             shape = [1] * len(mu.shape)
             shape[1] = -1
             sigma = (self.sigma_param.view(shape) + torch.zeros_like(mu)).exp()
-        return (mu, sigma), state
+        return (mu, sigma), hidden
 
 
 class RecurrentActorProb(nn.Module):
-- 
2.43.0


From 8f7130d974219730755c3e1a5f4fe2156bbf6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:19 +0000
Subject: [PATCH 55/55] fix: PSRL updated the caller's transition prior in
 place

---
 tianshou/policy/modelbased/psrl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 8c13747..17bb67c 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -44,7 +44,8 @@ class PSRLModel:
         discount_factor: float,
         epsilon: float,
     ) -> None:
-        self.trans_count = trans_count_prior
+        # copied because observe() updates the counts in place
+        self.trans_count = trans_count_prior.copy()
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-- 
2.43.0

