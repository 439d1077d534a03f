"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": list(observe)} if observe else {})}})


D = "tianshou/data/"
B = "tianshou/data/buffer/"
E = "tianshou/env/"
PO = "tianshou/policy/"
H = "tianshou/highlevel/"
U = "tianshou/utils/"
L = "tianshou/utils/logger/"

# ---------------------------------------------------------------- data
p("B01", "Resetting a buffer makes it indistinguishable from a new one",
  "After a replay buffer of any kind is reset it behaves like a freshly constructed one: size, write position, last written positions, running episode statistics (unless the caller asked to keep them) and sampling priorities are all back at their initial values. A vectorised buffer resets each of its parts too, with the same option, and no bookkeeping array is shared so that later writes to one record change another.",
  ["histories", "configurations"], "every sequence of stores, updates, priority updates and resets on every buffer class (plain, prioritized, HER, vectorised, cached)",
  "Tests reset a few buffers after short fixed histories and look at the size; priorities and the statistics of sub-buffers after reset are not observed for each class.",
  [B + "base.py", B + "manager.py", B + "prio.py", B + "her.py"],
  [("ReplayBuffer.reset", B + "base.py"), ("ReplayBufferManager.reset", B + "manager.py"), ("PrioritizedReplayBuffer.reset", B + "prio.py"), ("HERReplayBuffer.reset", B + "her.py")],
  ["len", "last_index", "sample", "weight"])
p("B02", "Storing into a buffer copies its input and never modifies it",
  "Adding a batch to a buffer, or copying another buffer into it, leaves the given batch, arrays and source buffer as they were when the call returns. The stored data never shares memory with what was passed in, so later changes by the caller cannot change the buffer.",
  ["inputs", "histories"], "every batch (nested, stacked, optional keys) and source buffer given to any buffer class",
  "Tests compare stored values, not whether the caller's batch, index list or source buffer was touched on every storage option.",
  [B + "base.py", B + "manager.py", B + "cached.py", B + "her.py", B + "prio.py"],
  [("ReplayBuffer.add / update", B + "base.py"), ("ReplayBufferManager.add", B + "manager.py"), ("CachedReplayBuffer.add", B + "cached.py")], ["argument objects after the call"])
p("B03", "Sampling and processing data never alters what is stored",
  "Reading from a buffer (indexing, sampling, stacking) and everything a policy does with a sampled batch before, during and after learning (return estimation, reward shaping, priorities) leaves the stored transitions unchanged. Where a component substitutes stored data temporarily, the original is put back before control returns to the caller, also when an error occurs. Values a policy adds to a buffer lie at the positions of the transitions they were computed from.",
  ["inputs", "histories", "fault_sequences"], "every policy class, every buffer class, every index or slice, all orders of sampling and learning",
  "Tests check the losses and batches produced; none compares the whole buffer before and after for each policy and index kind, nor with an exception inside processing.",
  [B + "base.py", PO + "base.py", PO + "multiagent/mapolicy.py", PO + "modelbased/icm.py", PO + "imitation/discrete_crr.py", PO + "imitation/cql.py"],
  [("BasePolicy.process_fn/compute_episodic_return/compute_nstep_return", PO + "base.py"), ("ReplayBuffer.__getitem__/get", B + "base.py"), ("MultiAgentPolicyManager.process_fn", PO + "multiagent/mapolicy.py"), ("ICMPolicy.process_fn/post_process_fn", PO + "modelbased/icm.py")])
p("B04", "A vectorised buffer and its parts always show the same data",
  "In a vectorised buffer each part always is the view of its own contiguous range of the common storage, also after the storage is first allocated, extended by new keys, replaced, copied, unpickled or loaded from disk. Positions reported by or looked up in a part are translated by that part's own offset, and the whole's lengths and last positions follow the parts.",
  ["histories", "configurations"], "every history of adds (with any subset of parts), storage replacement, pickling, copying and HDF5 loading, for every manager class",
  "Tests unpickle or load a buffer and compare values once; writes after loading, or key extension followed by part-local sampling, are not exercised for all classes.",
  [B + "manager.py", B + "cached.py", B + "base.py"],
  [("ReplayBufferManager._set_batch_for_children / __setstate__", B + "manager.py"), ("ReplayBufferManager.add offsets", B + "manager.py"), ("CachedReplayBuffer.add", B + "cached.py")])
p("B05", "Prioritized sampling weights follow the priorities",
  "Every newly stored transition gets the largest priority seen so far; updates store the absolute error raised to alpha, and sampled batches carry the weight (priority/minimum)^-beta of exactly the returned transitions, normalised by its maximum if so configured. After learning, the new errors are written back for exactly the sampled transitions, and settings given at construction or changed later also apply to vectorised buffers.",
  ["histories", "configurations", "inputs"], "every order of adds, updates, beta changes and samples, for each prioritized buffer class and each policy",
  "Tests compare a few numeric cases; the write-back through every policy and each constructor option on the vectorised classes are not covered.",
  [B + "prio.py", B + "manager.py", B + "vecbuf.py", PO + "base.py"],
  [("PrioritizedReplayBuffer.add/update/update_weight/get_weight/__getitem__", B + "prio.py"), ("PrioritizedVectorReplayBuffer.set_beta", B + "vecbuf.py"), ("BasePolicy.post_process_fn", PO + "base.py")])
p("B06", "Hindsight relabelling is always undone before data is touched again",
  "Goals and rewards rewritten for hindsight replay are saved before they are overwritten and restored, for exactly those transitions, before the buffer stores, re-samples, resets, replaces or saves its data; the sampled indices themselves are returned unchanged. Rewards are recomputed from the new goals.",
  ["histories"], "every interleaving of add, sample, update, save and reset on hindsight buffers and their vectorised form",
  "Tests sample once or twice and compare; interleavings with saving, storage replacement or updates of other buffers are not enumerated.",
  [B + "her.py", B + "manager.py"],
  [("HERReplayBuffer.rewrite_transitions/_restore_cache", B + "her.py"), ("HERReplayBufferManager", B + "manager.py")])
p("B07", "Saving to HDF5 and loading gives back the same kinds of values",
  "Every value kind the HDF5 writer stores (batches, arrays, tensors, numbers, other objects) is tagged so that the reader rebuilds the same kind, at every nesting level, with the requested compression and onto the requested device. Saving covers the complete state of a buffer and loading installs all of it.",
  ["inputs"], "every nesting and mixture of supported value kinds",
  "Tests round-trip one nested example per buffer class.",
  [D + "utils/converter.py", B + "base.py", B + "her.py"],
  [("to_hdf5 / from_hdf5", D + "utils/converter.py"), ("ReplayBuffer.save_hdf5/load_hdf5", B + "base.py")])
p("B08", "Episodes in a ring buffer keep their boundaries",
  "The write position advances by one and wraps at the capacity, the size saturates at it, and stepping to the previous or next transition never crosses an episode end or the last written transition, within each part of a vectorised buffer. The stored end-of-episode flag is 'terminated or truncated'; episode return, length and start accumulate from the last end and are handed out in that order; a cached episode is moved to the main storage exactly when it ends.",
  ["histories", "inputs"], "every sequence of stored transitions with arbitrary episode ends and any capacity, for all buffer classes",
  "Tests use small hand-made sequences; wrap-around combined with episode ends in each part cannot be enumerated.",
  [B + "base.py", B + "manager.py", B + "cached.py"],
  [("ReplayBuffer._update_state_pre_add/prev/next/add", B + "base.py"), ("_prev_index/_next_index", B + "manager.py"), ("CachedReplayBuffer.add", B + "cached.py")])
p("B11", "What is read from a buffer is what was stored at the requested positions",
  "Indexing a buffer returns, under every key, that key's stored data at the requested positions; the next observation is the stored one when it is kept and otherwise the observation at the buffer's next position; stacked frames are the successive predecessors in time order; listing all positions goes from the oldest to the newest stored transition; random draws come only from stored positions, from the parts of a vectorised buffer in proportion to what they hold, shifted to the part's range; and an interval that crosses a part's end continues at that part's beginning.",
  ["histories", "inputs"], "every buffer content, wrap-around position, stack length and index form",
  "Tests compare a few hand-made buffers; positions that wrap around in a part, frame stacks across episode ends and empty parts are combinations they sample sparsely.",
  [B + "base.py", B + "manager.py"],
  [("ReplayBuffer.__getitem__/get/sample_indices/get_buffer_indices", B + "base.py"), ("ReplayBufferManager.sample_indices", B + "manager.py")])
p("B12", "Combining, assigning and blanking batches works key by key and row by row",
  "Concatenating batches puts, under every key, the operands' rows one after the other in the order of the operands; stacking puts operand i at position i of the new axis; keys that only some (nested) operands have are filled with zero, none or blank entries exactly at the rows of the operands that lack them. Adding two batches adds the entries of the same name, number operations change every entry, update and item assignment replace exactly the entries named, and blanking or assigning to an index changes exactly those rows (missing entries become zero, none or blank) of every entry at every nesting level.",
  ["inputs"], "every structure of keys and nestings, every order of keys, every number, length and kind of operands, every index",
  "Tests combine a few hand-made batches; nested partial keys, differing key orders and indices of nested entries are combinations they hardly sample.",
  [D + "batch.py"],
  [("Batch.cat_/__cat/stack_/create_value", D + "batch.py"), ("Batch.__setitem__/empty_/update/__iadd__/set_array_at_key", D + "batch.py")])
p("B09", "Batch operations that return a new batch leave their operands unchanged",
  "Arithmetic, concatenation, stacking, splitting, indexing, conversion and transformation of batches that are documented to return a new object never modify their operands or constructor arguments (including dictionaries nested in them), and the in-place variants modify only the receiver.",
  ["inputs"], "every batch structure (nested, mixed arrays and tensors, empty) and every operation",
  "Tests check results; operands are compared afterwards for a handful of shapes only.",
  [D + "batch.py"], [("Batch.__add__ … / cat / stack / split / to_numpy / to_torch / apply_values_transform", D + "batch.py")])
p("B10", "Batch conversions reach every leaf with the requested type and device",
  "Converting a batch to tensors or arrays visits every leaf at every nesting level and keeps the structure: array leaves become tensors on the requested device, tensor leaves get the requested element type and device, and conversion to arrays turns every tensor leaf into an array. Splitting covers every element exactly once, and copies and pickles have the same keys and values as the original.",
  ["inputs"], "every nested mixture of arrays, tensors, numbers and sub-batches, every requested type and device",
  "Tests convert a few batches with one dtype; the array-to-tensor path with an explicit dtype is not observed for all leaf kinds.",
  [D + "batch.py", D + "utils/converter.py"], [("Batch.to_torch_/to_numpy_/split", D + "batch.py"), ("to_torch/to_numpy", D + "utils/converter.py")])

# ---------------------------------------------------------------- environments
p("E01", "A closed vectorised environment refuses every operation",
  "After closing, every operation of a vectorised environment that would reach a worker fails with an error instead of silently talking to dead workers; closing closes every worker, and a worker is closed once.",
  ["histories"], "every order of operations and close on every vector environment class",
  "Tests call one or two operations after close for some backends.",
  [E + "venvs.py", E + "worker/worker_base.py"], [("BaseVectorEnv._assert_is_not_closed/close", E + "venvs.py"), ("EnvWorker.close", E + "worker/worker_base.py")])
p("E02", "Asynchronous stepping never loses or mixes up an environment",
  "In asynchronous mode an environment that has been sent an action and has not answered cannot be reset, stepped, seeded or queried; every sent action's result is returned exactly once, for the environment it was sent to, and ready environments are exactly those not waiting. A wait returns at least the configured number of results, or whatever finished within the time limit, and never more than were asked of running ones.",
  ["schedules", "histories"], "every interleaving of environment completion times and of calls by the user, all wait counts and timeouts",
  "Tests use sleeping environments whose completion order is practically fixed.",
  [E + "venvs.py", E + "worker/subproc.py", E + "worker/dummy.py", E + "worker/ray.py"],
  [("BaseVectorEnv.step/_assert_id, waiting_conn/waiting_id/ready_id", E + "venvs.py"), ("SubprocEnvWorker.wait", E + "worker/subproc.py")])
p("E03", "Every command of the subprocess protocol is answered in kind",
  "Each request the parent sends to an environment process is understood by it and answered exactly when the parent waits for an answer, with results in the order and shape the parent unpacks; unknown commands fail loudly, and the process ends on close (closing its environment) or when the parent disappears.",
  ["programs", "schedules", "fault_sequences"], "every request kind and order of requests, with and without shared memory, environment process death included",
  "Tests drive the usual reset/step sequence; a mismatch in a rarely used request shows up as a hang only when used.",
  [E + "worker/subproc.py"], [("_worker command loop / SubprocEnvWorker", E + "worker/subproc.py")])
p("E04", "Seeding reaches every environment and its action space",
  "Seeding a vectorised environment gives each environment its own seed (an integer becomes consecutive seeds, a list is used one by one), for every backend and through every wrapper, and also seeds the action space of that environment. Resetting with a seed hands the seed to the environment and seeds its action space.",
  ["configurations", "inputs"], "every backend, wrapper and seed form",
  "Tests compare sampled actions for the backends in one order of calls.",
  [E + "venvs.py", E + "worker/", E + "venv_wrappers.py"], [("BaseVectorEnv.seed", E + "venvs.py"), ("EnvWorker.seed/reset", E + "worker/worker_base.py")])
p("E05", "Shared-memory observations are snapshots of the right environment",
  "An observation returned by the shared-memory backend has the same structure and values the environment produced and does not change when the environment steps on. Every leaf of a structured observation has its own storage and is written and read under the same name.",
  ["inputs", "histories", "schedules"], "every observation structure (array, tuple, dict, nested) and any later activity",
  "Tests compare observations at once, before the next step overwrites the shared block.",
  [E + "worker/subproc.py"], [("ShArray, _setup_buf, _encode_obs, decode_obs", E + "worker/subproc.py")])
p("E06", "Vector environment wrappers are transparent",
  "A wrapper around a vectorised environment forwards every operation and every attribute of the environment interface (spaces included) it does not intentionally change, with the given environment ids. The observation normaliser updates its statistics only when told to and at most once per observation, normalises every observation it returns, and never modifies the wrapped environment's arrays.",
  ["programs", "inputs"], "every method and attribute of the wrapped vector environment, every id selection",
  "Tests call a few methods through the normaliser.",
  [E + "venv_wrappers.py", "tianshou/utils/statistics.py", E + "gym_wrappers.py"], [("VectorEnvWrapper / VectorEnvNormObs", E + "venv_wrappers.py"), ("RunningMeanStd", "tianshou/utils/statistics.py")])
p("E07", "Vectorised results line up with the environments they came from",
  "Row i of everything reset and step return belongs to the i-th requested environment: the action sent to an environment is the one given for it, and observation, reward, both end flags and info come from its own answer; in step results the info names the environment. Attribute access and rendering address the requested environments in the requested order.",
  ["inputs", "schedules"], "every subset and order of environment ids, every backend, synchronous and asynchronous",
  "Tests use identical environments or full id ranges, where a permutation is invisible.",
  [E + "venvs.py"], [("BaseVectorEnv.reset/step/get_env_attr/set_env_attr/seed/render", E + "venvs.py")])
p("E08", "Multi-agent and gym wrappers report the environment's own step",
  "Environment adapters (multi-agent, discrete-action and truncation conversions) pass actions through their documented mapping, return the wrapped environment's rewards and both end flags without mixing them up, and hand out reward lists the caller may keep.",
  ["inputs", "histories"], "every action, agent order and episode end",
  "Tests play a few games to the end and look at the shape of results.",
  [E + "pettingzoo_env.py", E + "gym_wrappers.py"], [("PettingZooEnv.reset/step", E + "pettingzoo_env.py"), ("ContinuousToDiscrete, TruncatedAsTerminated", E + "gym_wrappers.py")])

# ---------------------------------------------------------------- collector
p("C01", "A collection request is validated before anything is stepped",
  "A collect call states exactly one of a positive number of steps or of episodes; anything else is refused with an error before any environment is stepped or any data stored. The environment count and buffer shape are checked at construction.",
  ["inputs"], "every combination of step and episode arguments (absent, zero, negative, positive, both)",
  "Tests try two or three bad argument combinations.",
  [D + "collector.py"], [("BaseCollector._validate_n_step_n_episode/_assign_buffer", D + "collector.py")])
p("C02", "Only finished environments are reset, and everything about them is",
  "When episodes end during collection exactly the environments that finished are reset, with their global ids; their observations, infos and recurrent state are replaced, everyone else's stay, and when environments are taken out of rotation every per-environment array is filtered by the same selection.",
  ["histories", "schedules"], "every pattern of episode ends over any number of environments, synchronous and asynchronous collection",
  "Tests use environments with fixed episode lengths; recurrent state after a partial reset is not observed.",
  [D + "collector.py"], [("Collector._collect / _reset_env_with_ids / _reset_hidden_state_based_on_type / AsyncCollector._collect", D + "collector.py")])
p("C03", "Stored transitions are what happened in the environment",
  "Each stored transition holds the observation the policy acted on, the policy's own action, and the reward, end flags, info and next observation of that very step, written to the buffer part of that environment; the environment executes the mapped version of the same action.",
  ["histories", "configurations"], "every policy, action bounding and exploration setting, every set of ready environments",
  "Tests compare stored observations for deterministic toy environments only.",
  [D + "collector.py", PO + "base.py"], [("Collector._collect / _compute_action_policy_hidden / AsyncCollector._collect", D + "collector.py"), ("BasePolicy.map_action", PO + "base.py")])
p("C04", "Collection never trains and never leaves a policy in the wrong mode",
  "Collection runs the policy in evaluation mode, takes no optimisation step, and puts the policy's previous mode back when it ends, also after an error. The helpers that switch a policy's mode or its training-step marker set what was asked for and restore the earlier value on every way out.",
  ["fault_sequences", "configurations"], "every policy, random and non-random collection, errors in environment or policy",
  "Tests check the mode after a successful run only.",
  [D + "collector.py", "tianshou/utils/torch_utils.py", PO + "base.py"], [("BaseCollector.collect", D + "collector.py"), ("torch_train_mode, policy_within_training_step, in_train_mode", "tianshou/utils/torch_utils.py")])
p("C05", "Resetting a collector clears all of its carried-over state",
  "Resetting a collector resets environments, buffer statistics and counters as requested and drops carried-over observations, infos and recurrent state, so that the next collection starts from the reset observations; partially finished episodes never leak into the next collection.",
  ["histories"], "every order of collect and reset calls with each option, also with asynchronous environments still running",
  "Tests reset after complete collections.",
  [D + "collector.py"], [("BaseCollector.reset / Collector.reset_env / AsyncCollector.reset_env", D + "collector.py")])
p("C07", "Step and episode hooks see the collected data and their additions stick",
  "A step hook is called once per environment step with the batch that is stored; an episode hook is called once per finished episode with exactly that episode's transitions, after they are stored. What an episode hook returns is stored under its own keys at exactly that episode's positions, collecting a number of steps with such additions is refused, and merged hooks combine entries that do not overlap and refuse overlapping ones.",
  ["histories", "inputs"], "every pattern of episode ends, every hook result, every merge of hooks",
  "Tests run one hook on one short collection.",
  [D + "collector.py"], [("Collector._collect hooks, EpisodeRolloutHook / EpisodeRolloutHookMerged / StepHook", D + "collector.py")])
p("C06", "Collection statistics describe exactly the collected data",
  "The reported numbers of steps and episodes equal those of the collected data; returns and lengths are those of the finished episodes in order; cumulative counters and times grow by exactly what was collected.",
  ["histories"], "every request size, environment count and episode pattern",
  "Tests compare totals for a few requests.",
  [D + "collector.py", D + "stats.py"], [("Collector._collect counters / CollectStats", D + "collector.py"), ("SequenceSummaryStats", D + "stats.py")])

# ---------------------------------------------------------------- trainer
p("T01", "Training-time behaviour is active exactly inside the training step",
  "The marker that makes policies explore is set during data collection and updates of a training step and never during test episodes, is restored to its earlier value afterwards even on errors, and learning outside a training step is refused.",
  ["histories", "fault_sequences"], "every trainer kind, every schedule of training and testing, early stopping and errors",
  "Tests run whole trainings; the marker during each phase is not observed.",
  ["tianshou/trainer/base.py", "tianshou/utils/torch_utils.py", PO + "base.py"], [("BaseTrainer.train_step/_training_step/…", "tianshou/trainer/base.py"), ("policy_within_training_step", "tianshou/utils/torch_utils.py")])
p("T02", "Evaluation never changes what is being trained",
  "A test phase runs the policy in evaluation mode on a freshly reset test collector, calls the user's test hook first, uses the configured number of episodes, and neither updates the policy nor touches the training buffer; training mode is restored before training continues.",
  ["histories", "configurations"], "every trainer kind, schedule and early-stop path",
  "Tests do not observe the mode or the collector state at each phase.",
  ["tianshou/trainer/base.py", "tianshou/trainer/utils.py"], [("BaseTrainer.test_step / test_episode", "tianshou/trainer/utils.py")])
p("T03", "The best policy is the one that was saved",
  "Best reward, its deviation and epoch are replaced together whenever a test result beats the best so far or ends the training, and the save hook runs at each such moment and for the initial policy. All test results enter that comparison through the same configured reward metric.",
  ["histories", "configurations"], "every sequence of test results",
  "Tests look at the final result of one training run.",
  ["tianshou/trainer/base.py"], [("BaseTrainer.test_step / reset / run", "tianshou/trainer/base.py")])
p("T04", "Each trainer kind uses data in its regime",
  "On-policy training uses each collected batch for the configured number of repeats and then discards it; off-policy training performs updates in proportion to the newly collected steps; offline training performs the configured number of updates without collecting. Step and episode counters advance by what was really collected, the gradient counter advances with every update, and a restarted trainer starts from zero.",
  ["histories", "configurations"], "every configuration of collection sizes, updates per step and repeats",
  "Tests run fixed configurations and look at the reward.",
  ["tianshou/trainer/base.py"], [("OffpolicyTrainer/OnpolicyTrainer/OfflineTrainer policy update functions", "tianshou/trainer/base.py")])
p("T05", "Checkpoint and resume agree with the logs",
  "What the loggers write when data is saved is what they look up when training is resumed, so a resumed training continues at the saved epoch, environment step and gradient step; checkpoints are saved at the configured interval with the current counters, and a resumed training measures its baseline with a fresh test of the resumed policy.",
  ["crash_points", "histories"], "every crash point between saved checkpoints, every logger back end",
  "Tests resume once from a completed run with one logger.",
  ["tianshou/trainer/base.py", L + "base.py", L + "tensorboard.py", L + "wandb.py"], [("save_data/restore_data", L + "tensorboard.py"), ("BaseTrainer.reset resume_from_log", "tianshou/trainer/base.py")])
p("T06", "Training stops when, and only when, its stop rule says so",
  "Training ends after the configured number of epochs or when the user's stop rule holds for a test result, is checked again on a full test before stopping early within an epoch, and each epoch performs at least the configured number of steps.",
  ["histories"], "every sequence of training and test rewards",
  "Tests stop at a reward threshold they hope to reach.",
  ["tianshou/trainer/base.py"], [("BaseTrainer.__next__/_test_in_train/run", "tianshou/trainer/base.py")])

# ---------------------------------------------------------------- policies
p("P01", "An update runs sample, process, learn, post-process once, in order",
  "A policy update samples from the given buffer, preprocesses, learns exactly once in training mode, and post-processes with the sampled indices; it marks the policy as updating for exactly that time (also on errors), steps the learning-rate schedule once per update, and does nothing with no buffer.",
  ["histories", "fault_sequences"], "every policy class and buffer class",
  "Tests see only that training works.",
  [PO + "base.py"], [("BasePolicy.update", PO + "base.py")])
p("P02", "Target networks change only by their update rule and never train",
  "A target network starts as a copy of its online network, receives no gradients, stays in evaluation mode even when the policy is switched to training, and changes only by full copy at the configured interval or by the configured soft-update fraction toward its own online network, while every online network follows the mode of the policy. Bootstrapped values come from target networks wherever a policy has them. (Rainbow's noisy target networks, which must resample their noise, are exempt from evaluation mode.)",
  ["histories", "configurations"], "every off-policy and offline policy class, any order of updates and mode switches",
  "Tests train and look at the reward; a target network in training mode or receiving gradients only degrades learning.",
  [PO + "base.py", PO + "modelfree/", PO + "imitation/", "tianshou/utils/lagged_network.py"],
  [("BasePolicy.soft_update, sync_weight, train overrides", PO + "modelfree/dqn.py")])
p("P03", "Bootstrapping is cut by termination only, and targets carry no gradient",
  "Return targets add the discounted value of the next state unless the environment terminated: a step that was only cut off by a time limit still bootstraps, and episode ends always stop the accumulation of later rewards. The bootstrap value belongs to the state the configured number of steps ahead, is discounted with the configured factor once per step, and targets are computed without recording gradients.",
  ["inputs", "histories"], "every reward, value and end-flag sequence, every policy with value targets",
  "Tests compare a few numeric returns without time limits; which flag masks the value is only visible on truncated episodes.",
  [PO + "base.py", PO + "modelfree/", PO + "imitation/"], [("BasePolicy.value_mask/compute_episodic_return/compute_nstep_return/_gae_return/_nstep_return", PO + "base.py")])
p("P04", "Evaluation acts deterministically when asked, training always explores",
  "A policy configured for deterministic evaluation uses the most likely action or mean exactly when it is acting outside a training step; inside one it samples or adds its exploration noise, and exploration noise is never added outside of training.",
  ["configurations"], "every policy class with a stochastic actor or exploration noise",
  "Tests do not compare actions in both modes for every class.",
  [PO + "modelfree/", PO + "imitation/", PO + "base.py"], [("forward / exploration_noise", PO + "modelfree/pg.py")])
p("P05", "Every gradient step starts from zeroed gradients of its own loss",
  "In every learning routine each optimiser step is preceded, since that optimiser's previous step, by clearing its gradients and then by back-propagating the loss it is meant to minimise; every loss that is reported was back-propagated and is reported as a plain number, and gradient clipping happens between back-propagation and step.",
  ["programs", "histories"], "every learn routine, every path through it, every number of repeats",
  "Accumulated or missing gradients only slow learning down; tests have generous reward thresholds.",
  [PO + "modelfree/", PO + "imitation/", PO + "modelbased/", "tianshou/utils/optim.py"], [("learn methods", PO + "modelfree/")])
p("P06", "Illegal actions are never chosen",
  "When an observation carries a mask of legal actions, in the policies that support masks (those of the DQN family and the random policies; not BDQ, discrete BCQ and policy-gradient actors), greedy choice, random exploration and random policies choose legal actions only, for every value range of the action scores.",
  ["inputs"], "every mask with at least one legal action and all value estimates",
  "Tests use one mask with typical values.",
  [PO + "modelfree/dqn.py", PO + "modelfree/c51.py", PO + "random.py", PO + "imitation/bcq.py"], [("DQNPolicy.compute_q_value / exploration_noise", PO + "modelfree/dqn.py"), ("MARLRandomDiscreteMaskedOffPolicy", PO + "random.py")])
p("P07", "Wrapping policies is transparent to the wrapped ones",
  "A wrapper or multi-agent policy hands each inner policy exactly the transitions, observations, rewards and recurrent state that belong to it, in the right order, propagates mode switches and exploration to every inner policy, and leaves the caller's data as it was (the action array passed to exploration_noise may be modified).",
  ["inputs", "histories"], "every agent order, any subset of acting agents, each inner policy class",
  "Tests play one small game.",
  [PO + "multiagent/mapolicy.py", PO + "modelbased/icm.py"], [("MultiAgentPolicyManager", PO + "multiagent/mapolicy.py"), ("ICMPolicy", PO + "modelbased/icm.py")])
p("P08", "Action mapping keeps actions inside the space and is invertible",
  "Bounding maps any network output into [-1, 1] and scaling maps that range onto the action space; the inverse used for stored or random actions undoes the scaling. Only continuous action spaces are mapped, and the given array is not modified.",
  ["inputs", "configurations"], "every action value, bounding method and scaling setting",
  "Tests compare a few actions.",
  [PO + "base.py"], [("BasePolicy.map_action/map_action_inverse", PO + "base.py")])
p("P09", "All randomness of training comes from the seedable global generators",
  "No component of the library draws random numbers from a source that seeding Python's, numpy's and torch's global generators and the environments does not control, and none re-seeds them behind the user's back; an experiment seeds each generator before it creates anything.",
  ["programs", "configurations"], "every module of the library",
  "Reproducibility is tested for a few algorithms with one seed.",
  ["tianshou/"], [("np.random / torch sampling call sites", "tianshou/")])

p("P10", "Each algorithm minimises its documented objective",
  "For every setting of its flags, every loss that is back-propagated is the algorithm's documented formula (policy gradient, clipped surrogate, value, entropy, temporal-difference, quantile, distributional, behaviour-cloning, conservative, adversarial, variational and temperature losses) and sends gradients into the networks it is meant to train; bootstrap targets, returns, advantages, stored log-probabilities, intrinsic and adversarial rewards and the entropy coefficient are computed by their formulas; natural-gradient methods move the actor along the conjugate-gradient direction by the documented step and leave it where it was when their line search fails.",
  ["configurations", "inputs"], "every policy class, every setting of the flags that its formulas depend on, every batch",
  "Tests train short runs on toy tasks: a wrong sign, coefficient, clip bound, reduction or network in one term rarely keeps them from reaching their threshold, and most flag settings are never run.",
  ["tianshou/policy/"], [("learn, _target_q, process_fn and forward of every policy", "tianshou/policy/")])

p("P11", "The provided networks compute their documented function",
  "For every setting of its switches, what a provided network returns is the documented function of its parts and arguments: value plus advantage minus mean advantage for dueling heads, softmax exactly when asked for, bounded means and clamped exponentiated deviations for stochastic actors, observation and action in that order for critics, the drawn fractions with the quantiles they belong to, noise in training mode only; the recurrent state goes in and comes out unmixed, batch-first and without gradient, and is returned by every network around a recurrent one; every block applies linear layer, normalisation and activation in that order, each with its own arguments.",
  ["configurations", "inputs"], "every network class, every setting of its switches and optional arguments, every input",
  "Tests only look at whether a toy task is learned; most switches are never on, and a crossed state, a softmax over the wrong axis or a misplaced normalisation still learns something.",
  [U + "net/"], [("forward of every network", U + "net/"), ("miniblock and MLP", U + "net/common.py")])

p("P12", "The model-based learner keeps a correct posterior and acts on its solution",
  "The posterior sampling learner counts every transition of an update once, at its own state, action and next state (a self-loop of terminal states only if asked for); its reward means, deviations and counts afterwards are those of the documented posterior given the prior; the policy it acts with is the maximising policy of the Bellman equation iterated to convergence for transition probabilities and rewards drawn from the current posterior, solved again after every update and not in between; the caller's prior arrays are never changed.",
  ["inputs", "histories"], "every prior, every batch (repeated transitions, ends of episodes), every sequence of updates and actions",
  "The one test runs a small chain environment until a reward is reached; lost repeated transitions, a posterior mean that forgets, a stale policy or priors shared between learners still get there.",
  [PO + "modelbased/psrl.py"], [("PSRLModel.observe / value_iteration / solve_policy", PO + "modelbased/psrl.py"), ("PSRLPolicy.learn", PO + "modelbased/psrl.py")])

# ---------------------------------------------------------------- across the package
p("S01", "Options reach what they configure",
  "Anywhere in the package, a function that accepts an option and calls something that accepts an option of the same name hands it on; an argument is never passed under the name of another parameter; and no parameter of a public function is without effect, unless its signature is fixed by a base class, a subclass or a protocol.",
  ["configurations"], "every call of a package function by a package function, every parameter",
  "Tests use defaults nearly everywhere, and an option that is dropped on the way or exchanged with another one of the same type leaves them unaffected.",
  ["tianshou/"], [("every call site whose arguments are bound by name", "tianshou/")])

# ---------------------------------------------------------------- high level
p("H01", "Every configured hyper-parameter reaches the algorithm",
  "Each parameter of the high-level configuration objects is consumed by the object it configures under the corresponding name: no declared parameter is silently ignored, misnamed or passed to another argument, for every algorithm; networks get the environments' shapes, the requested inputs and the requested device; training, test and watch environments are created in the configured number, for their own purpose and with their own seed; and schedules, noise and callbacks compute from the configured values what they are named after.",
  ["configurations"], "every algorithm's parameter object and every sampling, network and environment setting",
  "Tests construct each experiment with default values, so a parameter that is dropped looks the same.",
  [H + "agent.py", H + "params/policy_params.py", H + "config.py", H + "experiment.py"], [("Params → create_kwargs → policy constructors", H + "agent.py"), ("SamplingConfig → trainer", H + "agent.py")])
p("H02", "Persistence restores what it saved, at the stage where it was saved",
  "Everything the high-level persistence hooks save is read back from the same file into the same object, restore happens before the restored object is used, and every persistence member of a group is called for every event.",
  ["histories", "configurations"], "every combination of persisted parts and restore directories",
  "Tests save once and do not restore.",
  [H + "persistence.py", H + "experiment.py"], [("PersistableConfigProtocol, PolicyPersistence, WorldPersistence", H + "persistence.py")])
p("H03", "A failing experiment neither stops nor hides the others",
  "When a collection of experiments runs, a failure of one is logged, the others still run, each with its own seed and its own result, and only if all failed is an error raised.",
  ["fault_sequences", "configurations"], "every subset of failing experiments, each launcher",
  "Tests run successful experiments only.",
  ["tianshou/evaluation/launcher.py", H + "experiment.py"], [("ExpLauncher.launch/_safe_execute", "tianshou/evaluation/launcher.py")])
p("L01", "Loggers record each kind of data at its own interval under its own name",
  "Training, test, update and info records are written only when their configured interval has passed since the last write of the same kind, the time of that write is remembered per kind, and nested statistics are flattened without losing entries or changing the caller's data.",
  ["histories", "inputs"], "every order of log calls and step counters, every nesting of statistics",
  "Tests look at one short run.",
  [L + "base.py", L + "tensorboard.py", L + "wandb.py"], [("BaseLogger.log_*_data / prepare_dict_for_logging", L + "base.py")])
p("L02", "Logged results are read back and evaluated as they were logged",
  "What the loggers stored is restored under the name and from the scope it was logged in: training and test curves, steps and runs are not exchanged, dropped or misaligned, entries the reader does not know do not break it, every requested scope is evaluated with the requested options, and the aggregate metrics and their intervals are computed from exactly the selected runs.",
  ["histories", "configurations"], "every content of a log directory, every scope and plotting option",
  "One test evaluates a single scope with default options and looks at nothing of the result.",
  ["tianshou/evaluation/rliable_evaluation_hl.py", L + "tensorboard.py", L + "base.py"], [("RLiableExperimentResult.load_from_disk/eval_results, load_and_eval_experiments", "tianshou/evaluation/rliable_evaluation_hl.py"), ("LoggedCollectStats.from_data_dict, LoggedSummaryData", "tianshou/evaluation/rliable_evaluation_hl.py")])

p("N03", "Running, moving and summary statistics equal those of the observed values",
  "The running mean, variance and count after an update are those of all old and new observations pooled, per component; normalisation subtracts that mean and divides by the deviation, clipped symmetrically; the moving average is that of the latest finite values; and collection summaries are the mean, deviation, maximum and minimum of exactly the episodes' returns and lengths.",
  ["inputs", "histories"], "every grouping of values into updates, every value sequence", "Tests compare two groupings; numerical identity over all inputs is not sampled.",
  ["tianshou/utils/statistics.py", "tianshou/data/stats.py"], [("RunningMeanStd.update/norm, MovAvg", "tianshou/utils/statistics.py"), ("SequenceSummaryStats, CollectStats", "tianshou/data/stats.py")])

# ---------------------------------------------------------------- stated, not claimed
p("N01", "Return and advantage estimates equal their defining formulas",
  "For every episode layout the computed n-step returns and generalised advantages equal the textbook recursions to floating-point accuracy.",
  ["inputs"], "every reward, value and end-flag array", "Tests compare a dozen hand-computed cases.",
  [PO + "base.py"], [("_gae_return/_nstep_return", PO + "base.py")])
p("N02", "Prioritized sampling draws transitions in proportion to their priorities",
  "The long-run frequency with which a transition is sampled is proportional to its stored priority.",
  ["inputs", "histories"], "all priority vectors", "Tests compare one empirical distribution.",
  [B + "prio.py", D + "utils/segtree.py"], [("SegmentTree.get_prefix_sum_idx", D + "utils/segtree.py")])
p("N04", "Training with fixed seeds is reproducible",
  "Two trainings with the same configuration and seeds produce the same sequence of results on the same machine.",
  ["configurations", "schedules"], "all configurations", "Tests repeat two algorithms.",
  ["tianshou/"], [("global generators, environment seeding", "tianshou/")])
p("N05", "Collection throughput scales with the number of environments",
  "Adding environments to a parallel collector never blocks on a slow one for longer than the configured wait.",
  ["schedules"], "all completion-time distributions", "Tests assert one coarse timing.",
  [E + "venvs.py"], [("wait_num/timeout", E + "venvs.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
