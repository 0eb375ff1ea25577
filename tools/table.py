prop("C01", "Circle arithmetic is exact modulo a full turn",
 "Wrapping any finite angle gives the same angle modulo 2π and a result in [0, 2π); wrapping is idempotent. The signed difference of two angles is congruent to their difference and lies in [-π, π], so moving by it reaches the target along the shortest arc.",
 ["inputs"], "all finite angles, including huge and negative ones",
 "tests sample a few dozen angles with tolerances; range and congruence must hold for every float64, including rounding at the borders",
 ["emerge/core/phase.go"], [("WrapPhase", "emerge/core/phase.go"), ("PhaseDifference", "emerge/core/phase.go")],
 "Range obligations are proved bit-exactly for all float64; congruence is proved over the reals (math.Mod, math.Atan2 and math.Floor by their mathematical definitions).")

prop("C02", "Coherence is an order parameter in [0, 1]",
 "The measured coherence of any set of phases is a number in [0, 1], is 1 when all phases agree and 0 when there are none. The weighted variant is in [0, 1] for all non-negative weights.",
 ["inputs"], "all sets of phases of any size, all non-negative weights",
 "unbounded collections: tests use at most a few hand-picked phase vectors",
 ["emerge/core/phase.go"], [("MeasureCoherence", "emerge/core/phase.go"), ("MeasureCoherenceWeighted", "emerge/core/phase.go")],
 "Proved over the reals with inductive loop invariants (Cauchy-Schwarz on the partial sums), for any number of phases.")

prop("C03", "Agent state stays in range over every history",
 "However an agent is created, configured or updated with finite values, its phase and local goal stay in [0, 2π), its energy is finite and never negative, and influence and stubbornness stay in [0, 1]. Every setter changes its own field only, to the requested (wrapped or clamped) value, and an agent built from a configuration starts with what the configuration says.",
 ["histories", "inputs", "configurations"], "every constructor, option and setter, every finite argument, every order of calls (each operation preserves the invariant)",
 "the invariant must survive every sequence of operations with every value; tests check single operations on sample values",
 ["emerge/agent/agent.go", "emerge/agent/atomic_state.go", "emerge/agent/builder.go"],
 [("setters and options", "emerge/agent/agent.go"), ("NewFromConfig", "emerge/agent/builder.go"), ("NewOptimizedFromConfig", "emerge/agent/agent.go"), ("AtomicState.Update", "emerge/agent/atomic_state.go")],
 "The invariant is proved established by every constructor and preserved by every operation, bit-exactly; that the new value is the requested angle is proved over the reals.",
 state=[("agent state", "phase, energy, local goal, period, influence, stubbornness", "emerge/agent/atomic_state.go")])

prop("C04", "Token pools conserve tokens and never leave their bounds",
 "A resource pool never grants more than was asked for or is available, never exceeds its capacity and never goes negative; granted plus remaining equals what was there before, and releasing what was granted restores it. Each request or release is one atomic step under the pool's lock.",
 ["inputs", "histories", "schedules"], "all amounts including NaN, infinities and negatives; all histories and interleavings of requests and releases",
 "accounting must hold for every amount and every interleaving; the tests use a few round amounts and one concurrent scenario",
 ["internal/resource/token.go"], [("Request", "internal/resource/token.go"), ("Release", "internal/resource/token.go")],
 "Bit-exact for all float64 amounts; atomicity by a lock discipline obligation (one critical section covering every access).",
 state=[("tokens", "0 <= level <= capacity", "internal/resource/token.go")])

prop("C05", "Actions are charged exactly once or leave the agent untouched",
 "Applying an action succeeds exactly when its type is known and the agent can afford it; then the energy drops by exactly its cost and the phase turns by exactly its value (not at all when maintaining), and otherwise nothing changes and an error is returned. An action never changes the local goal, the period, influence or stubbornness, and draws on a token pool exactly when it succeeds.",
 ["inputs", "histories"], "all actions with finite value and non-negative cost on every reachable agent state",
 "all-or-nothing must hold for every action and every energy level, including exactly equal and rounding cases",
 ["emerge/agent/agent.go"], [("ApplyAction", "emerge/agent/agent.go")],
 "Success, cost and charging are proved bit-exactly; the turn of the phase over the reals.")

prop("C06", "Concurrent agent updates are never lost",
 "While other goroutines update the same agent at any moment, every setter, perception step and action replaces the agent's state or behavior in one atomic step that changes only its own fields and keeps whatever was concurrently written to the others. A successful action is paid from the energy present at that very moment, so the same energy is never spent twice, and a published state is never modified in place.",
 ["schedules"], "all interleavings of any number of concurrent updates of one agent (interference before every atomic access)",
 "lost updates need a particular interleaving between two atomic accesses; no test run can exclude them",
 ["emerge/agent/atomic_state.go", "emerge/agent/agent.go"], [("AtomicState.Update, AtomicBehavior.Update", "emerge/agent/atomic_state.go"), ("setters, ApplyAction, UpdateContext", "emerge/agent/agent.go")],
 "Rely-guarantee: before every atomic access the location may hold any other value in range; the one write of the call is specified relative to the value it replaces. A stress run only looks for a failing schedule once an obligation has failed.")

prop("C07", "Neighbor connections are kept faithfully",
 "Connecting to an agent makes it a neighbor under the given id, at most once per id, unless the storage is full, and disconnecting removes exactly that one; an agent never connects to itself or to nobody. All other connections stay as they were, the list of neighbors holds each of them once, counts are exact, and each storage operation is one atomic step under its lock.",
 ["histories", "schedules", "inputs"], "all sequences of connects, disconnects and clears on storages of any capacity, both kinds of neighbor storage",
 "the slot bookkeeping must survive every order of insertions and deletions; tests use a few ids",
 ["emerge/agent/neighbor_storage.go", "emerge/agent/agent.go"], [("Store, Delete, Load, All, Clear, Count", "emerge/agent/neighbor_storage.go"), ("ConnectTo, DisconnectFrom, IsConnectedTo, NeighborCount", "emerge/agent/agent.go")],
 "Data-structure invariant (ids distinct, slots within capacity) preserved by every operation; a lock discipline obligation gives one critical section per operation. Capacities up to 2^30.",
 state=[("neighbor storage", "count, ids and neighbors in step, ids distinct", "emerge/agent/neighbor_storage.go")])

prop("C08", "Decisions pick the best benefit/cost option",
 "The decision maker always returns one of the offered actions, no offered action has a better benefit-to-cost ratio than the one chosen, and the confidence is in [0, 1] and follows the chosen ratio. With no options the agent maintains at no cost.",
 ["inputs"], "every non-empty list of actions of any length, any costs (including zero and negative) and benefits",
 "optimality over lists of any length and any ratios; tests use lists of two or three",
 ["emerge/decision/simple.go"], [("Decide", "emerge/decision/simple.go")],
 "Proved over the reals with inductive loop invariants for lists of any length.")

prop("C09", "Strategies approach the target on the shortest arc and never overshoot",
 "For rates in [0, 1] every strategy's proposal moves towards the target along the shortest arc by at most the remaining distance, costs a non-negative amount that covers the movement, and comes with a confidence in [0, 1]. Strategy constructors clamp their parameters, and a composite strategy always answers with one of its members' proposals.",
 ["inputs", "configurations"], "all phases, rates, contexts and selector results",
 "direction and bounds must hold for every pair of phases (wrap-around included) and every rate",
 ["emerge/strategy/phase_nudge.go", "emerge/strategy/frequency_lock.go", "emerge/strategy/energy_aware.go", "emerge/strategy/pulse.go", "emerge/strategy/adaptive.go"],
 [("Propose", "emerge/strategy/phase_nudge.go"), ("Propose", "emerge/strategy/frequency_lock.go"), ("Propose", "emerge/strategy/energy_aware.go"), ("Propose", "emerge/strategy/pulse.go"), ("Propose", "emerge/strategy/adaptive.go")],
 "Proved over the reals against the contract of the angle difference; composite strategies for up to three members and any selector.")

prop("C10", "Goal blending interpolates on the shortest arc",
 "Blending a local and a global goal gives a phase in [0, 2π) at exactly the (clamped) weight along the shortest arc from local to global: weight 0 gives the local phase, weight 1 the global phase. The coherence is the weighted mean and lies between the two, and the period stays the local one.",
 ["inputs"], "all phases, coherences and weights",
 "circular interpolation has wrap-around cases for every pair of phases; tests sample a handful",
 ["emerge/goal/manager.go"], [("Blend", "emerge/goal/manager.go")],
 "Interpolation proved over the reals; range of the blended phase also bit-exactly.")

prop("C11", "Target states are validated and normalised",
 "Validation accepts a target exactly when its period is positive, its coherence in [0, 1] and its phase a finite number, and never alters it. Normalisation always terminates, keeps the angle modulo 2π, clamps the coherence, replaces an unusable period by the default and leaves a valid target; it reports an error exactly for a NaN coherence or a NaN or infinite phase.",
 ["inputs"], "all states including huge phases, NaN and infinities",
 "termination and exactness for every float64; an earlier loop did not terminate for large phases and the tests did not see it",
 ["emerge/core/state.go"], [("Validate / NormalizePhase", "emerge/core/state.go")],
 "Bit-exact, including termination.")

prop("C12", "Swarm configurations are usable or refused",
 "Validation accepts a swarm configuration exactly when the size is allowed, all probabilities lie in [0, 1], the neighbor limits are ordered and fit the swarm, energy, basin width and intervals are positive and concurrency limits are not negative (NaN is never accepted). Normalising repairs everything but a forbidden size, keeps the usable values as they are, clamps the others to the nearest bound, and gives batch processing at least one worker and one agent per batch. Automatic scaling, batching and preset configurations are usable for every swarm size they are meant for.",
 ["inputs", "configurations"], "every value of every field, including NaN and infinities; all swarm sizes up to 2^40",
 "twenty interacting fields and all swarm sizes; tests try a few configurations and sizes",
 ["internal/config/swarm.go"], [("Validate, NormalizeAndValidate", "internal/config/swarm.go"), ("AutoScaleConfig, ForBatching, presets", "internal/config/swarm.go")],
 "Bit-exact over every float64. Iterating over Go maps is proved for every iteration order.")

prop("C13", "Goal, trait and size settings always give a usable configuration",
 "Every goal, also an unknown one, yields a fresh usable configuration. Tuning a usable configuration for any trait, in any order and repeatedly, and adjusting it to any number of agents keep it usable (fractions within [0, 1], ordered thresholds and ranges, positive intervals and tolerances) and move it in the direction the trait or size stands for. Validation accepts exactly the usable configurations. Size categories are ordered, contain their own default count, and scale their defaults monotonically.",
 ["inputs", "configurations", "histories"], "all usable configurations (not only the built-in ones), all goals, traits and agent counts, any number of tuning steps (each step preserves usability)",
 "a tuned configuration is tuned again; tests look at single steps from the built-in configurations",
 ["emerge/swarm/config.go", "emerge/swarm/goal_constants.go", "emerge/scale/scale.go", "emerge/goal/config.go"], [("For, TuneFor, WithSize, Validate", "emerge/swarm/config.go"), ("FromCount and defaults", "emerge/scale/scale.go")],
 "Usability is an invariant of the configuration, preserved by every step: proved over the reals for arbitrary usable configurations, validation bit-exactly including NaN.",
 state=[("goal configuration", "fractions, ordered thresholds and ranges, positive intervals", "emerge/swarm/config.go")])

prop("C14", "Coherence limits and recovery thresholds are consistent",
 "Coherence limits are ordered fractions that never fall with more agents; the minimum swarm size for a target can practically reach it and grows with the target; the time factor is infinite exactly beyond the practical limit, otherwise between 1 and 8 and never smaller for a higher target; a validated target is kept when possible and silent exactly when recommended. Recovery thresholds are ordered fractions, tighter for higher targets, and resynchronisation is asked for whenever one of them is crossed, never for a swarm at its target that has not dropped.",
 ["inputs"], "all swarm sizes, all targets, all coherence histories",
 "consistency between functions at every border of their case distinctions; tests sample single values",
 ["emerge/swarm/limits.go", "emerge/swarm/thresholds.go", "emerge/swarm/swarm_continuous_run.go"], [("GetCoherenceLimits, GetMinimumSwarmSize, GetConvergenceTimeFactor, ValidateCoherenceTarget", "emerge/swarm/limits.go"), ("DefaultRecoveryConfig, needsResync", "emerge/swarm/swarm_continuous_run.go")],
 "Two-point (relational) contracts for monotonicity; mostly bit-exact.")

prop("C16", "A swarm holds exactly its agents, and measures and disturbs exactly them",
 "A swarm of n agents holds n agents, each once and under its own ID, whether it uses the small (map) or the large (slice and index, more than 100 agents) storage; default agents are numbered from agent-0. Looking up an ID finds the agent with that ID or nothing; Agents lists, and ForEachAgent visits, every agent exactly once (until told to stop); coherence is measured over the phase of every agent and lies in [0, 1]; convergence to a target phase lies in [0, 1] and is 1 when all agents are at the target; the variance of the phases lies in [0, π²]. Disrupting a share of the swarm gives a new phase to at most that share of the agents (rounded down, shares outside [0, 1] clamped), leaves all phases in range and the population as it was.",
 ["inputs", "histories"], "any size, both storages, any order in which the map is visited",
 "the large storage and every order of a map's visit; tests use small swarms and one order",
 ["emerge/swarm/swarm.go", "emerge/swarm/phase_convergence.go", "emerge/agent/builder.go", "emerge/agent/agent.go"], [("createDefaultAgents, createOptimizedAgents, WithAgentBuilder, Agent, Agents, collectAgents, ForEachAgent, MeasureCoherence, DisruptAgents", "emerge/swarm/swarm.go"), ("MeasurePhaseConvergence, MeasurePhaseVariance", "emerge/swarm/phase_convergence.go"), ("NewFromConfig", "emerge/agent/builder.go"), ("New, NewOptimizedFromConfig, SetPhase", "emerge/agent/agent.go")],
 "A representation invariant of the swarm over both storages, with the map's visit as ghost state (visited keys, their order and number) in loop invariants; agent constructors and SetPhase by contract. New with arbitrary options is not under contract as a whole.")

prop("C18", "Monitors report faithfully what was recorded, within bounds",
 "A convergence monitor keeps every recorded measurement in order and is converged exactly when the latest one reaches the threshold; its current value, extremes, history and statistics agree with the record, its rate is the slope of a straight run, its stability is a fraction (1 for an unchanging run) and its prediction is never negative and absent after convergence or for falling coherence. The sample monitors keep at most the latest 100 samples (or two windows), drop only the oldest, and derive average, progress (a fraction), trend, stuckness and the call for another strategy from exactly the recent samples; a returned history is the caller's own, a reset forgets everything, and every query is a single critical section that never re-acquires its lock.",
 ["inputs", "histories", "schedules"], "every sequence of recordings and queries, from any number of goroutines",
 "histories of any length (trimming at the window borders) and lock re-entry that only deadlocks under a waiting writer",
 ["emerge/monitoring/convergence.go", "emerge/monitoring/monitor.go", "emerge/convergence/monitor.go", "internal/emerge/convergence.go", "internal/emerge/metrics.go"],
 [("ConvergenceMonitor.Record, IsConverged, CurrentCoherence, ConvergenceRate, Stability, PredictConvergenceTime, Statistics, History, Reset", "emerge/monitoring/convergence.go"), ("Monitor.RecordSample, History, Latest, Average", "emerge/monitoring/monitor.go"), ("Monitor.RecordSample, GetProgress, GetConvergenceRate, ShouldSwitchStrategy, Reset", "emerge/convergence/monitor.go"), ("the same monitors", "internal/emerge/convergence.go")],
 "Representation invariants kept by every method; the regression sums are proved by induction, for any window. Values bit-exact, rates and averages over the reals.")

prop("C20", "Random values stay in their ranges",
 "Every random fraction is in [0, 1), every random phase in [0, 2π) and every random integer in [0, n), whatever bytes the entropy source delivers.",
 ["inputs"], "every output of the entropy source and every bound",
 "tests draw samples; the borders (rounding up to 1.0) have probability below 1e-15",
 ["internal/random/random.go"], [("Float64, Intn, Phase", "internal/random/random.go")],
 "Bit-exact over every entropy value.")

prop("C21", "Pattern gaps, distances, similarity and completion are faithful",
 "The distance between two patterns is in [0, 1] for coherences in [0, 1] and 0 between equal patterns; a gap is reported exactly when phase, period or coherence differ beyond their tolerance, once per kind, with a severity in [0, 1]. In a recorded pattern the gaps are exactly the jumps of more than a quarter turn, and a gap is filled with one phase per missing point; similarity (of patterns with an amplitude and a period) is in [0, 1] and 1 to itself. Completion chooses a template only within the match threshold, blends phases the short way round by their share, keeps blended periods and waveforms between the two inputs, and never moves the phase by more than half a turn.",
 ["inputs"], "all patterns, gaps, templates and weights",
 "exactness at the tolerance borders, for patterns of any length and every combination of differences",
 ["emerge/core/pattern.go", "emerge/monitoring/patterns.go", "internal/emerge/pattern.go", "emerge/completion/engine.go"], [("PatternDistance, IdentifyGaps", "emerge/core/pattern.go"), ("NewTargetPattern, Detect, Complete, Similarity", "emerge/monitoring/patterns.go"), ("the same", "internal/emerge/pattern.go"), ("CompletePattern, findBestTemplate, blendPhase, blendFrequency, morphWaveform", "emerge/completion/engine.go")],
 "Proved over the reals against the contracts of the angle functions; loops by induction. The pattern library's choice (Identify) is not covered.")

prop("C24", "A pooled agent is as good as new",
"An agent drawn from the agent pool, new or used before, works: it has the ID it was drawn for, a state in range with a full energy budget and a positive period, the small influence (0.1 to 0.2) and stubbornness (0 to 0.3) of a pooled agent, a decision maker, an empty context and no neighbors, whatever it was used for before. An agent put back keeps neither its ID, nor its context, nor its neighbors. Gets and puts are counted, the agents in use are their difference, and putting back nil changes nothing.",
["inputs", "histories"], "any earlier use of the agent, with any number of neighbors in either storage",
"what an agent keeps from its previous use; tests never draw from the pool",
["emerge/agent/pool.go"], [("PoolManager.Get, PoolManager.Put, PoolManager.Stats, Agent.Reset, Agent.Clear", "emerge/agent/pool.go"), ("New", "emerge/agent/agent.go"), ("NeighborStorage.Clear", "emerge/agent/neighbor_storage.go")],
"An invariant of what waits in the sync.Pool (its New and Put keep it, Get may rely on it), and loop invariants over the ghost visit of the neighbor map. The random draws are by contract.")

prop("C25", "Agents perceive and propose faithfully",
 "Perceiving counts the neighbors, measures local coherence as the length of their mean phase vector (in [0, 1]) and the density as the share of possible neighbors, and moves the local goal towards the neighbors' mean phase; nothing else changes. A proposal never costs more than the agent's energy when accepted, a declined one is to maintain for free, a fully stubborn agent accepts nothing, and proposing changes nothing; the standard agent turns only towards its local goal, by its rate of the distance.",
 ["inputs", "configurations"], "any number of neighbors with any phases, both kinds of neighbor storage, any strategy and decision maker",
 "sums over neighborhoods of any size and the affordability of proposals by arbitrary strategies; tests use two or three neighbors",
 ["emerge/agent/agent.go", "emerge/agent/neighbor_storage.go"], [("UpdateContext, calculateLocalCoherence, ProposeAdjustment", "emerge/agent/agent.go")],
 "Proved over the reals with inductive loop invariants (partial sums, Cauchy-Schwarz), for any number of neighbors.")
