"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'RandomAccessQueue is a bounded FIFO with list indexing',
  'At every moment a RandomAccessQueue equals the sequence of all values ever appended or extended (initial contents included), minus those popped from the left or overwritten, cut to its last maxlen elements: len, iteration order, positive and negative indexing, item assignment and popleft agree with that sequence. Indexing, assignment or popleft outside the sequence raises IndexError and changes nothing. sample(k) returns k elements at k distinct positions.',
  ['inputs', 'histories'], 'All finite sequences of operations, all maxlen including None and 0, all contents and all indices.',
  'tests run random operation mixes on small queues; the internal two-stack split, wrap points and negative indices are sampled, not covered for every reachable representation.',
  ['chainerrl/misc/collections.py'],
  [('front/back stacks, _apply_maxlen', 'chainerrl/misc/collections.py')],
  [('_queue_front/_queue_back', 'queue = reversed(front) ++ back', 'chainerrl/misc/collections.py')])

p('C02', 'Priority trees: exact aggregates, exact writes, inverse-CDF lookup',
  'A sum (min) priority queue always holds exactly the priorities appended, assigned and not yet popped, in order: sum() and min() equal the sum and minimum of them (0 and infinity when empty), an assignment changes only the addressed position, and popleft removes and returns the oldest one. A prioritized draw that lands at position p in [0, sum) selects the unique index i whose cumulative priority interval [S(i), S(i+1)) contains p, hence never an index of zero priority. Sampling without removal leaves every priority as it was; with removal exactly the sampled ones become zero, and the returned values are the priorities the sampled items had.',
  ['inputs', 'histories'], 'All finite histories of append, popleft, assignment and sampling; all non-negative priorities; all draws.',
  'tests compare against a naive list for short random histories; tree growth, root collapse and lookup at every depth and boundary are not enumerated.',
  ['chainerrl/misc/prioritized.py'],
  [('_write/_reduce/_expand/_find recursion over [left, right)', 'chainerrl/misc/prioritized.py'),
   ('TreeQueue.append/popleft re-rooting', 'chainerrl/misc/prioritized.py')],
  [('root, bounds, length', 'binary tree over leaf interval with aggregate in each node', 'chainerrl/misc/prioritized.py')])

p('C03', 'Prioritized buffer keeps data and priorities aligned under its protocol',
  'A prioritized buffer is a FIFO of (value, priority) pairs of at most capacity pairs: a pair appended without priority gets the largest priority ever given back (initially the configured one), and appending to a full buffer evicts the oldest pair first. Sampling n returns n values at pairwise distinct positions with the probability uniform_ratio/len + (1-uniform_ratio)*priority/total of each, and a minimum probability computed the same way from the smallest priority; priorities given back right after are assigned, in order, to exactly the sampled positions and no other priority changes. While waiting for priorities, sampling again or giving back priorities twice, in the wrong number or non-positive is refused with an AssertionError.',
  ['inputs', 'histories'], 'All finite histories of append, sample and priority update; all capacities, ratios and priorities.',
  'tests check sampling statistics on a few small buffers; the alignment of three parallel queues over arbitrary histories is not covered.',
  ['chainerrl/misc/prioritized.py', 'chainerrl/replay_buffers/prioritized.py'],
  [('PrioritizedBuffer.append/popleft/sample/set_last_priority', 'chainerrl/misc/prioritized.py')],
  [('data, priority_sums, priority_mins, sampled_indices, flag_wait_priority', 'three aligned queues and the pending sample', 'chainerrl/misc/prioritized.py')])

p('C04', 'N-step replay buffer stores each window once and never mixes episodes',
  'For every environment stream, each appended transition starts exactly one stored experience, and that experience is the run of consecutive transitions of the same environment and the same episode starting there, num_steps long or cut short only by the end of the episode (a terminal transition or a stop of the current episode). Experiences appear in the buffer in the order in which they were completed, with all fields of every transition unchanged, and the buffer keeps exactly the last capacity of them. Appending or stopping in one environment never changes what is stored for another, and stopping an episode with nothing pending stores nothing.',
  ['inputs', 'histories'], 'All interleavings of append/stop over any number of environment ids, any num_steps and any capacity.',
  'tests use a handful of fixed episodes; windows at episode ends depend on the relation of episode length, num_steps and interleaving.',
  ['chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/replay_buffers/prioritized.py'],
  [('ReplayBuffer.append / stop_current_episode', 'chainerrl/replay_buffers/replay_buffer.py')],
  [('last_n_transitions', 'per-environment pending window', 'chainerrl/replay_buffers/replay_buffer.py'),
   ('memory', 'stored experiences', 'chainerrl/replay_buffers/replay_buffer.py')])

p('C05', 'Episodic buffers hold whole recent episodes, flat and episodic views agree',
  'An episodic replay buffer contains exactly the most recent finished episodes, oldest first, each unchanged; an episode becomes visible as a whole when it terminates or is stopped, never before, and transitions of different environments never share an episode. Whole episodes are evicted from the oldest side, as few as needed for the number of transitions to be within capacity, and for the non-prioritized buffer the flat list of transitions is always the concatenation of the stored episodes. Sampled episodes are distinct stored episodes, or contiguous sub-sequences of them of the requested maximum length.',
  ['inputs', 'histories'], 'All interleavings of append/stop/sample over environments, all capacities and episode lengths.',
  'tests append fixed-length episodes; eviction when an episode straddles or exceeds the capacity is not covered.',
  ['chainerrl/replay_buffers/episodic.py', 'chainerrl/replay_buffers/prioritized_episodic.py', 'chainerrl/replay_buffer.py'],
  [('stop_current_episode', 'chainerrl/replay_buffers/episodic.py'), ('stop_current_episode', 'chainerrl/replay_buffers/prioritized_episodic.py')],
  [('current_episode, episodic_memory, memory', 'pending episodes, stored episodes, flat view', 'chainerrl/replay_buffers/episodic.py')])

p('C06', 'Priorities from errors and importance weights follow the published formulas',
  'The priority of a TD error e is (clip(e, error_min, error_max) + eps) ** alpha, element by element and in order. Importance weights are (P_i / P_min) ** -beta with P_min the batch minimum or the reported memory minimum as configured, or (N * P_i) ** -beta without normalisation, for the beta in force before the call; each sampled experience carries its own weight. After each weight computation beta grows by (1 - beta0)/betasteps and never exceeds 1.',
  ['inputs', 'histories'], 'All errors, probabilities and configurations; any number of calls.',
  'tests check one configuration statistically; formulas must hold for every error, bound and annealing step.',
  ['chainerrl/replay_buffers/prioritized.py'],
  [('PriorityWeightError', 'chainerrl/replay_buffers/prioritized.py')],
  [('beta, beta_add', 'annealed exponent', 'chainerrl/replay_buffers/prioritized.py')])

p('C07', 'Batching experiences yields exact n-step returns, discounts and flags',
  'Batching experiences keeps order: entry i has the first transition\'s state and action, the last transition\'s next state, the reward sum over j of gamma**j * r_j over all its transitions, discount gamma**length, and the terminal flag set iff any of its transitions is terminal. The next action is present iff every experience\'s last transition has one. Recurrent batching yields one entry per transition in episode order with its own reward, action, terminal flag and discount gamma, per-episode state sequences, and the recurrent states of each episode\'s first transition.',
  ['inputs'], 'All batches, experience lengths, rewards, discounts and flags.',
  'tests use a few fixed experiences of up to three steps.',
  ['chainerrl/replay_buffer.py'],
  [('batch_experiences, batch_recurrent_experiences', 'chainerrl/replay_buffer.py')])

p('C08', 'Sampling without replacement: distinct in-range indices, contiguous pieces',
  'Sampling k of n returns exactly k pairwise distinct integers in [0, n) for every 0 <= k <= n and whatever the random draws are, and raises ValueError for any other k. A random sub-sequence of length L of a sequence is a contiguous piece of exactly L elements, or the whole sequence when it is not longer than L, and every start position is possible.',
  ['inputs'], 'All n, k, sequences, lengths, and all outcomes of the random generator.',
  'tests draw with one generator state; the rejection loop is entered only on collisions, rare in tests.',
  ['chainerrl/misc/random.py', 'chainerrl/replay_buffer.py'],
  [('sample_n_k', 'chainerrl/misc/random.py'), ('random_subseq', 'chainerrl/replay_buffer.py')])

p('C09', 'Replay updates happen exactly on schedule and only with enough data',
  'Given a step number, the replay updater performs exactly n_times_update updates iff the buffer holds at least replay_start_size transitions, holds at least one batch of episodes in episodic mode, and the step is a multiple of update_interval; otherwise it performs none and samples nothing. Every update receives its own freshly drawn sample of exactly batchsize experiences (or episodes, cut to the configured length) and nothing else is passed to it.',
  ['inputs', 'histories'], 'All buffer sizes, step numbers and configurations.',
  'tests cover only schedules used by a few agents.',
  ['chainerrl/replay_buffer.py'], [('ReplayUpdater.update_if_necessary', 'chainerrl/replay_buffer.py')])

p('C10', 'Explorers follow their schedules and respect bounds',
  'Epsilon-greedy selection takes the random action iff the uniform draw is below the epsilon in force, and evaluates only the chosen alternative; linearly decayed epsilon is start + (end-start)*t/decay_steps up to decay_steps and end afterwards, hence always between start and end. Additive Gaussian and Ornstein-Uhlenbeck exploration return the greedy action plus their noise (the OU state moves by theta*(mu-x) plus its Gaussian increment at each step), and clipped exploration never leaves [low, high]. Greedy exploration returns the greedy action, Boltzmann exploration draws an action with the softmax of the values divided by the temperature, and a linear interpolation hook sets the start value up to step 1, the stop value from total_steps on, and the straight line between.',
  ['inputs', 'histories'], 'All t, schedules, actions, bounds and random draws.',
  'tests sample some t and check only bounds of epsilon or shapes of actions.',
  ['chainerrl/explorers/epsilon_greedy.py', 'chainerrl/explorers/additive_gaussian.py', 'chainerrl/explorers/additive_ou.py', 'chainerrl/explorers/greedy.py', 'chainerrl/explorers/boltzmann.py', 'chainerrl/experiments/hooks.py'],
  [('select_action, compute_epsilon, evolve', 'chainerrl/explorers'), ('LinearInterpolationHook', 'chainerrl/experiments/hooks.py')])

p('C11', 'The training loop drives agent and environment by the exact protocol',
  'Training for `steps` steps from step_offset interleaves the calls exactly: reset, then act-and-train on the latest observation and reward, then step with that action, step hooks in order with the new step count, and on done, needs_reset, max_episode_len or the last step exactly one stop_episode_and_train with the latest observation, reward and done flag, followed by a reset with reward 0 unless training is over. Exactly steps - step_offset environment steps are taken unless the evaluator reports the successful score; evaluation is offered only at episode ends with the current step and episode count, checkpoints are saved exactly at multiples of checkpoint_freq at which training goes on. The agent is saved under the final step as finished on normal completion, or as exception and the error re-raised if anything fails inside the loop.',
  ['histories', 'inputs', 'fault_sequences'], 'All environment behaviours (rewards, done, needs_reset), all step counts, limits and exceptions at any call.',
  'tests run a scripted toy environment with one or two reset patterns.',
  ['chainerrl/experiments/train_agent.py'], [('train_agent', 'chainerrl/experiments/train_agent.py')])

p('C12', 'Batch training counts, resets and reports per environment correctly',
  'In every iteration of batch training all environments are stepped once with the agent\'s actions for the latest observations, and the agent observes exactly those results, with the reset flag of an environment set iff it reported needs_reset or its episode length reached max_episode_len. Exactly the environments whose episode ended (done or reset) start a new episode, with length and return counted from zero, before the next action, and none after the last iteration; every episode end is counted once. The step counter advances by one per environment, with hooks called for each count and a checkpoint at each multiple of checkpoint_freq; training stops at the first iteration whose count reaches `steps` or whose evaluation reaches the successful score, and the agent is then saved once as finished (or as exception, with the environment closed, if anything fails).',
  ['histories', 'inputs', 'fault_sequences'], 'All numbers of environments, environment behaviours, step counts, limits and exceptions.',
  'tests use two scripted environments with fixed episode lengths.',
  ['chainerrl/experiments/train_agent_batch.py'], [('train_agent_batch', 'chainerrl/experiments/train_agent_batch.py')])

p('C13', 'Evaluators run on schedule and save the agent exactly when it improves',
  'An evaluator evaluates at step t iff t has reached the next scheduled evaluation time, and the schedule then moves forward (synchronous: to the last multiple of the interval not after t; asynchronous: by one interval, and never twice for the same slot). max_score is always the maximum of all mean scores so far and never decreases, and the agent is saved as best exactly when a mean strictly exceeds it (if enabled). Every evaluation appends one row with step, episode count, elapsed time, mean, median, stdev, max and min of exactly that evaluation\'s returns plus the agent\'s statistics in column order, below a single header row.',
  ['histories', 'inputs'], 'All sequences of step numbers, scores, intervals and offsets.',
  'tests use a few evenly spaced steps and fixed scores.',
  ['chainerrl/experiments/evaluator.py'], [('Evaluator, AsyncEvaluator', 'chainerrl/experiments/evaluator.py')],
  [('prev_eval_t, max_score', 'schedule and best score', 'chainerrl/experiments/evaluator.py')])

p('C14', 'Serial evaluation and demo collection count episodes and steps exactly',
  'Evaluating for n episodes runs exactly n episodes and returns their n returns in order, each the sum of the rewards of that episode; evaluating for n steps takes exactly n environment steps and returns the returns of the finished episodes, or the partial return if none finished. An episode ends exactly on done, needs_reset or max_episode_len; the environment is reset exactly before each episode and the agent is told to stop the episode at each end and at the end of evaluation, and it never trains. Demonstration collection writes one record per environment step, in order, with the observation acted upon, the action, reward, next observation, done flag and info of that step, for exactly the requested number of steps or episodes.',
  ['histories', 'inputs'], 'All environment behaviours, limits and requested counts.',
  'tests use scripted environments with constant episode lengths.',
  ['chainerrl/experiments/evaluator.py', 'chainerrl/experiments/collect_demos.py'],
  [('run_evaluation_episodes', 'chainerrl/experiments/evaluator.py'), ('collect_demonstrations', 'chainerrl/experiments/collect_demos.py')])

p('C15', 'Batch evaluation scores episodes in start order without length bias',
  'Evaluating n episodes on a vector environment returns exactly the returns of the first n episodes in the order in which they were started (ties by environment index), whatever order they finish in; evaluating n steps returns the returns of the longest prefix of started-and-finished episodes whose total length is at most n, or the partial return of the first episode if that prefix is empty. Each returned value is the sum of rewards of that one episode, which ends exactly on done, needs_reset or max_episode_len. Ended environments are reset before acting again, the agent observes every step\'s results with reset flags, and on the last step every reset flag is set.',
  ['histories', 'inputs'], 'All numbers of environments and all interleavings of episode lengths.',
  'tests use two environments with fixed, equal-length patterns.',
  ['chainerrl/experiments/evaluator.py'], [('batch_run_evaluation_episodes', 'chainerrl/experiments/evaluator.py')])

p('C16', 'Asynchronous training loop counts every step and episode exactly once',
  'Each worker adds exactly one to the global step counter per environment step and one to the global episode counter per episode it completes without having ended on success, always while holding the counter\'s lock, and uses the value it obtained as its global time. It follows the same act, step, hook and stop-episode protocol as serial training, ends its episode and stops at the first step whose global time reaches `steps` or at which training was flagged done, and evaluates only at episode ends. The final agent is saved by the worker whose last global time equals `steps`, and at most one worker flags and saves success; on an exception worker 0 saves the agent and the error propagates.',
  ['histories', 'schedules', 'inputs'], 'All environment behaviours and all values other workers may leave in the shared counters at each acquisition.',
  'tests run a few workers on toy environments; other workers\' interference at each lock acquisition is whatever the scheduler did.',
  ['chainerrl/experiments/train_agent_async.py'], [('train_loop', 'chainerrl/experiments/train_agent_async.py')])

p('C17', 'Episode-boundary wrappers signal time limits, lives and skips exactly',
  'A continuing time limit leaves observation, reward and done untouched and sets needs_reset exactly when at least max_episode_steps steps were taken since the last reset, and refuses to step before a reset; the timestep-limiting modifier reports done exactly from its limit on. Episodic-life reports done on every loss of a life with lives remaining and resets the inner environment only after a real end, otherwise taking one no-op. Frame skipping repeats the action at most skip times, stops at the first done or needs_reset, sums exactly the rewards of the taken steps, and after a full skip returns the element-wise maximum of the last two observations; no-op reset takes exactly the drawn number of no-ops and resets again whenever one ends the episode.',
  ['histories', 'inputs'], 'All inner environment behaviours, limits, skips and histories of step and reset.',
  'tests step a few toy environments a fixed number of times; Atari wrappers are not run offline.',
  ['chainerrl/wrappers/continuing_time_limit.py', 'chainerrl/wrappers/atari_wrappers.py', 'chainerrl/misc/env_modifiers.py'],
  [('ContinuingTimeLimit, EpisodicLifeEnv, MaxAndSkipEnv, NoopResetEnv, FireResetEnv', 'chainerrl/wrappers'), ('make_timestep_limited, make_action_repeated', 'chainerrl/misc/env_modifiers.py')])

p('C18', 'Transforming wrappers change only their own component, as specified',
  'Reward wrappers and modifiers replace the reward by scale*reward, its sign, the clipped or the filtered value and pass observation, done and info through; observation wrappers replace only the observation (cast, scale by 1/255, stack of the last k frames with the oldest first and the first frame repeated after reset); action wrappers replace only the action. A normalised action space maps [-1, 1] affinely onto [low, high] per component so that the inner environment never receives an out-of-bounds action for an in-bounds one; a randomised action is the given one unless the uniform draw is below the random fraction. The averaging filter subtracts the exponential moving average of the rewards seen, and the normalising one divides by their standard deviation, bounded below by sqrt(eps). Rendering and other pass-through wrappers forward every call exactly once and return its result unchanged.',
  ['histories', 'inputs'], 'All inner environments, observations, rewards, actions, bounds and draws.',
  'tests check a few fixed values on Pendulum/CartPole.',
  ['chainerrl/wrappers/scale_reward.py', 'chainerrl/wrappers/cast_observation.py', 'chainerrl/wrappers/normalize_action_space.py', 'chainerrl/wrappers/randomize_action.py', 'chainerrl/wrappers/atari_wrappers.py', 'chainerrl/wrappers/render.py', 'chainerrl/misc/env_modifiers.py', 'chainerrl/misc/reward_filter.py'],
  [('wrapper hooks', 'chainerrl/wrappers'), ('env modifiers', 'chainerrl/misc/env_modifiers.py')])

p('C19', 'Vector environments act as independent environments side by side',
  'Stepping a vector environment steps environment i with action i and returns its results at index i; resetting with a mask resets exactly the unmasked environments and returns the last observation (from step or reset) of the others, and without a mask resets all. The serial and the multi-process implementation answer every history of step and reset identically, and given one seed per environment both pass seed i to environment i; spaces and spec are those of the first environment. Stacking frames on a vector environment keeps, per environment, its last k observations oldest first, refilled with the first observation whenever and only when that environment is reset.',
  ['histories', 'inputs'], 'All numbers of environments, histories of step/reset with any mask, and all inner behaviours.',
  'tests compare a few random steps with three to four environments and few masks.',
  ['chainerrl/envs/serial_vector_env.py', 'chainerrl/envs/multiprocess_vector_env.py', 'chainerrl/wrappers/vector_frame_stack.py'],
  [('SerialVectorEnv', 'chainerrl/envs/serial_vector_env.py'), ('MultiprocessVectorEnv, worker', 'chainerrl/envs/multiprocess_vector_env.py'), ('VectorFrameStack', 'chainerrl/wrappers/vector_frame_stack.py')])

p('C20', 'Value targets follow each algorithm and never bootstrap past terminals',
  'For every batch entry the target value is reward + discount * (1 - terminal) * V, where V is what the algorithm prescribes from the next state: the target network\'s maximum (DQN), the target network\'s value of the online network\'s greedy action (Double DQN), the value of an action chosen by the explorer (SARSA), the online maximum (residual), the l-operator of the target values (DPP), the target critic at the target policy\'s action (DDPG), the smaller of two target critics at the smoothed target action (TD3), or the smaller of two target critics minus temperature times log-probability (SAC); the target critic at the target policy\'s action (PGT), every atom before projection or every quantile of the prescribed action (categorical DQN, IQN and their double variants); advantage-learning variants add only their advantage term. For terminal entries the result does not depend on the next state at all (persistent-advantage terms aside). The discount is that of the experience, gamma to the power of its number of steps.',
  ['inputs'], 'All batches, rewards, discounts, flags and all network outputs.',
  'tests check that training on toy problems succeeds; wrong masking or a wrong network is rarely fatal there.',
  ['chainerrl/agents/dqn.py', 'chainerrl/agents/double_dqn.py', 'chainerrl/agents/sarsa.py', 'chainerrl/agents/residual_dqn.py', 'chainerrl/agents/al.py', 'chainerrl/agents/pal.py', 'chainerrl/agents/double_pal.py', 'chainerrl/agents/dpp.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py', 'chainerrl/agents/pgt.py', 'chainerrl/agents/categorical_dqn.py', 'chainerrl/agents/categorical_double_dqn.py', 'chainerrl/agents/iqn.py', 'chainerrl/agents/double_iqn.py'],
  [('_compute_target_values, compute_critic_loss, update_q_func', 'chainerrl/agents')])

p('C21', 'Categorical projection preserves probability mass and the clipped mean',
  'Projecting a distribution over arbitrary atom values onto evenly spaced atoms gives, for every batch row, non-negative probabilities with the same total mass, in which the mass of each source atom is split between the two neighbouring target atoms in proportion to proximity, so that the mean equals the mean of the source values clipped to the support. Rows never influence each other.',
  ['inputs'], 'All batch sizes, atom counts, supports, source values (in and out of range, on and between atoms) and probabilities.',
  'tests compare with a reference loop on a few random inputs.',
  ['chainerrl/agents/categorical_dqn.py'], [('_apply_categorical_projection', 'chainerrl/agents/categorical_dqn.py')])

p('C22', 'Off-policy agents record every transition exactly once, correctly labelled',
  'Each environment step driven through a replay-based agent puts exactly one transition into its replay buffer: the observation acted on, the action returned for it, the reward and observation that followed, terminal iff the step was reported done; episodes never leak into one another and the buffer is told of every episode end exactly once. In batch mode the transition of environment i carries environment id i and its own values, for every pattern of done and reset flags. The target network is synchronised and the replay updater consulted exactly once per step with the agent\'s step count as configured.',
  ['histories', 'inputs'], 'All histories of act/observe/stop calls, numbers of environments and done/reset patterns.',
  'tests run training on toy environments and look at final scores.',
  ['chainerrl/agents/dqn.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py'],
  [('act_and_train, stop_episode_and_train, batch_observe_and_train', 'chainerrl/agents')],
  [('last_state/last_action, batch_last_obs/batch_last_action', 'pending half-transition', 'chainerrl/agents')])

p('C23', 'Advantages and value targets are exact GAE over each episode',
  'For every episode the advantage at step t equals the sum over k >= t of (gamma*lambda)**(k-t) * (r_k + gamma*nonterminal_k*V(s_{k+1}) - V(s_k)), the value target is advantage + V(s_t), and nothing is carried from one episode to another. The dataset built for an update contains every collected transition exactly once, in order, each with the log-probability and values predicted for its own state, next state and action.',
  ['inputs', 'histories'], 'All episodes, lengths, rewards, predictions, gamma and lambda.',
  'tests compare one hand-computed episode.',
  ['chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py'],
  [('_add_advantage_and_value_target_to_episode', 'chainerrl/agents/ppo.py'), ('_make_dataset', 'chainerrl/agents/ppo.py')])

p('C24', 'Splitting sequences for recurrent updates loses and reorders nothing',
  'Limiting sequence length cuts every sequence into consecutive non-empty pieces of at most the limit, all but the last of exactly the limit, whose concatenation is the original, in order. Grouping sequences into subsets with a fixed number of items yields subsets of exactly that many items whose concatenation is the concatenation of the input sequences, splitting a sequence only where a subset is full.',
  ['inputs'], 'All lists of sequences, lengths, limits and item counts that divide the total.',
  'tests check three or four fixed lists.',
  ['chainerrl/agents/ppo.py'],
  [('_limit_sequence_length', 'chainerrl/agents/ppo.py'), ('_yield_subset_of_sequences_with_fixed_number_of_items', 'chainerrl/agents/ppo.py')])

p('C25', 'On-policy n-step returns are exact and stop at episode ends',
  'A2C returns satisfy R_i = r_i + gamma*mask_i*R_{i+1} from the bootstrap value (or, with GAE, the exact generalised-advantage estimate plus value), where the mask of an environment is zero exactly at steps on which it was done or reset. A3C and n-step Q updates regress step i onto the discounted sum of the following rewards plus the discounted bootstrap value, zero after a terminal; REINFORCE weights step i\'s log-probability by exactly the sum of later rewards of that episode. Every step is used in exactly one update.',
  ['inputs', 'histories'], 'All reward sequences, update lengths, numbers of processes, done patterns and discount factors.',
  'tests train on toy environments; only A2C returns are compared, on one example.',
  ['chainerrl/agents/a2c.py', 'chainerrl/agents/a3c.py', 'chainerrl/agents/nsq.py', 'chainerrl/agents/reinforce.py'],
  [('_compute_returns', 'chainerrl/agents/a2c.py'), ('update', 'chainerrl/agents/a3c.py'), ('update', 'chainerrl/agents/nsq.py'), ('accumulate_grad', 'chainerrl/agents/reinforce.py')])

p('C26', 'Parameter synchronisation copies exactly and never aliases',
  'Hard synchronisation makes every parameter (and batch-normalisation statistic) of the target equal to the source\'s of the same name and changes nothing in the source; soft synchronisation makes each (1-tau)*target + tau*source; gradient copying makes each target gradient equal to the source\'s, or absent when the source\'s is. Target and source arrays stay distinct objects, so later changes to one never show in the other. An uninitialised target parameter raises TypeError.',
  ['inputs'], 'All models with matching parameter names, shapes, values and tau.',
  'tests use one or two small links.',
  ['chainerrl/misc/copy_param.py'], [('copy_param, soft_copy_param, copy_grad, synchronize_parameters', 'chainerrl/misc/copy_param.py')])

p('C27', 'Running statistics equal the statistics of all data seen',
  'After any sequence of batches the empirical normaliser\'s mean and variance equal the mean and population variance, per component, of all experienced samples together, irrespective of how they were split into batches, and its count is their number; once the configured limit is reached further data changes nothing. Normalising subtracts the mean and divides by sqrt(variance + eps), both as they were before the call, clips as configured, learns from the data only when asked to, and inverting undoes it.',
  ['inputs', 'histories'], 'All sequences of batches, shapes, axes and limits, over the reals.',
  'tests check a few random batches with tolerance.',
  ['chainerrl/links/empirical_normalization.py'], [('experience, __call__, inverse', 'chainerrl/links/empirical_normalization.py')],
  [('_mean, _var, count, _cached_std_inverse', 'running moments and cache', 'chainerrl/links/empirical_normalization.py')])

p('C28', 'Saving and loading an agent round-trips every declared attribute',
  'Saving writes, for every declared attribute that is not None, its contents to a file (or sub-directory, for nested agents) named after the attribute inside the given directory and nothing else; loading the same directory reads exactly those files back into the attributes of the same names, recursively. Attributes that are None are skipped on both sides, and attribute cycles are refused. Loading therefore restores on an identically configured agent exactly the saved contents.',
  ['inputs', 'configurations'], 'All attribute sets, nesting structures and None patterns.',
  'tests save and load a few concrete agents.',
  ['chainerrl/agent.py'], [('AttributeSavingMixin', 'chainerrl/agent.py')])

p('C29', 'Recurrent states are kept per environment and cleared exactly at episode ends',
  'While acting with a recurrent model each environment\'s hidden state evolves only with its own inputs: after a batch of steps the states of exactly the environments whose episode ended (done or reset) are replaced by the initial state and all others are untouched; serial agents clear the state exactly at episode ends. Training and evaluation states never mix. Stored transitions carry the hidden state before and after their own step, and concatenating, slicing and masking batched states are exact inverses element by element. Keeping or resetting a model\'s state for the length of a block (state_kept, state_reset) brings back exactly the state before, the initial state included.',
  ['histories', 'inputs'], 'All histories of act/observe/stop calls, batch sizes and done/reset patterns.',
  'tests use fixed short sequences for a few models.',
  ['chainerrl/agents/dqn.py', 'chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py', 'chainerrl/stateless_recurrent.py', 'chainerrl/recurrent.py'],
  [('_batch_reset_recurrent_states_when_episodes_end', 'chainerrl/agents/dqn.py'), ('mask/get/concatenate_recurrent_states', 'chainerrl/stateless_recurrent.py')])

p('C30', 'Action values: greedy action, maximum and advantage are consistent',
  'For discrete action values the greedy action attains the maximum, the maximum equals the value of the greedy action and is at least the value of every action, advantage is value minus maximum, and evaluating actions picks each row\'s own entry. For quadratic action values the value of action a is v - (a-mu)\' L (a-mu) / 2, the greedy action is mu clipped into the action bounds, the reported maximum is the value there, and selecting rows keeps all of this row by row.',
  ['inputs'], 'All value arrays, batch sizes, numbers of actions, means, positive definite matrices and bounds.',
  'tests check random small arrays.',
  ['chainerrl/action_value.py'], [('DiscreteActionValue, DistributionalDiscreteActionValue, QuadraticActionValue', 'chainerrl/action_value.py')])

p('C31', 'Agents act by their model: explored while training, unexplored in evaluation',
  'Acting for evaluation (act, batch_act) returns, for each observation and in order, the action the agent\'s own model prescribes for the features of that very observation (after phi and, where configured, normalisation with the statistics learned so far): the greedy action for value-based agents; for agents with a policy a sample from its distribution, or its most probable action when acting deterministically was asked for (for IQN: evenly spaced quantile thresholds). It consults no explorer, records nothing, and leaves parameters, optimizers, step counts, replay buffers, rollouts and normaliser statistics as they are. Acting while training returns for each observation what the explorer makes of the model\'s action for that observation (with the agent\'s step count and the action values of that observation), or, for agents without an explorer, a sample of the policy for it; DDPG, TD3 and SAC return the burn-in function\'s action, where one is configured, exactly until their first update.',
  ['inputs', 'histories'], 'All agents, observations, numbers of environments, agent states and model outputs.',
  'tests check that returned actions are valid, or that training on toy problems succeeds; which row, network, distribution or flag an action came from is not observed.',
  ['chainerrl/agents/dqn.py', 'chainerrl/agents/iqn.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py', 'chainerrl/agents/pgt.py',
   'chainerrl/agents/a2c.py', 'chainerrl/agents/a3c.py', 'chainerrl/agents/acer.py', 'chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py', 'chainerrl/agents/reinforce.py',
   'chainerrl/agents/pcl.py', 'chainerrl/agents/nsq.py', 'chainerrl/misc/batch_states.py'],
  [('act, batch_act', 'chainerrl/agents/'), ('act_and_train, batch_act_and_train', 'chainerrl/agents/'), ('batch_states', 'chainerrl/misc/batch_states.py')])

p('C32', 'Updates minimise the published losses',
  'Every gradient step is on the loss the algorithm is published with, over exactly the batch it was given, batched by the agent\'s own batch_states and phi, each example meeting its own prediction, target and importance weight. Value-based agents minimise the sum or mean (as configured) over the batch of the weighted Huber loss or half the squared error (as configured), CategoricalDQN of the cross entropy, IQN of the quantile Huber loss (mean over target quantiles, sum over thresholds), and report each example\'s error in batch order. DDPG and TD3 raise the mean value the first critic gives to the policy\'s own actions, and TD3 does so, and moves its targets, at exactly every policy_update_delay-th critic update; PGT raises the mean of advantage (over the most probable action) times log-probability of the drawn action plus beta times entropy; SoftActorCritic lowers the mean of temperature times log-probability minus the smaller critic, and its temperature, when adapted, lowers minus the mean of temperature times (log-probability plus target entropy). PPO minimises minus the mean clipped surrogate plus value_func_coef times the (clipped) squared value error minus entropy_coef times the mean entropy, with old log-probabilities, old values, targets and (standardised) advantages of the very transitions of the minibatch, and uses every transition in every epoch; TRPO\'s line search tries the steps 1, 1/2, 1/4, ... of the full step, at most line_search_max_backtrack + 1 of them, and takes the first whose surrogate gain is finite and no worse than before and whose mean KL divergence from the old policy is finite and at most max_kl; when there is none the parameters are exactly what they were.',
  ['inputs', 'histories'], 'All batches, predictions, targets, weights, advantages, log-probabilities, coefficients and configurations; all outcomes of line-search trials.',
  'tests check that losses are finite, or that training on toy problems succeeds within a tolerance; a wrong weight, sign, clip side, alignment or acceptance condition still learns those.',
  ['chainerrl/agents/dqn.py', 'chainerrl/agents/categorical_dqn.py', 'chainerrl/agents/iqn.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py',
   'chainerrl/agents/pgt.py', 'chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py'],
  [('compute_value_loss, compute_weighted_value_loss, _compute_loss', 'chainerrl/agents/dqn.py'), ('compute_eltwise_huber_quantile_loss', 'chainerrl/agents/iqn.py'), ('update', 'chainerrl/agents/'),
   ('_lossfun, _update, _update_once_recurrent', 'chainerrl/agents/ppo.py'), ('_compute_gain, _line_search, _update_policy', 'chainerrl/agents/trpo.py')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
