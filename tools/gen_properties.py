#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are maintained here)."""
import json
import os

CORE = "src/evotorch/core.py"
SA = "src/evotorch/algorithms/searchalgorithm.py"
GAUSS = "src/evotorch/algorithms/distributed/gaussian.py"
GA = "src/evotorch/algorithms/ga.py"
ME = "src/evotorch/algorithms/mapelites.py"
CMA = "src/evotorch/algorithms/cmaes.py"
PYCMA = "src/evotorch/algorithms/pycmaes.py"
LOG = "src/evotorch/logging.py"
NE = "src/evotorch/neuroevolution/neproblem.py"
GYM = "src/evotorch/neuroevolution/gymne.py"
VGYM = "src/evotorch/neuroevolution/vecgymne.py"
VRL = "src/evotorch/neuroevolution/net/vecrl.py"
RL = "src/evotorch/neuroevolution/net/rl.py"
RN = "src/evotorch/neuroevolution/net/runningnorm.py"
RS = "src/evotorch/neuroevolution/net/runningstat.py"
SNE = "src/evotorch/neuroevolution/supervisedne.py"
RST = "src/evotorch/algorithms/restarter/restart.py"
MRST = "src/evotorch/algorithms/restarter/modify_restart.py"
OPS = "src/evotorch/operators/base.py"
OPR = "src/evotorch/operators/real.py"
OPSEQ = "src/evotorch/operators/sequence.py"
MISC = "src/evotorch/tools/misc.py"
OBJ = "src/evotorch/tools/objectarray.py"
CLONE = "src/evotorch/tools/cloning.py"
HOOK = "src/evotorch/tools/hook.py"
DIST = "src/evotorch/distributions.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Parallel evaluation puts every result on its own solution",
    "When a population is evaluated by remote workers, every solution ends up with exactly the fitness(es) and extra"
    " evaluation data which the user's fitness function gives for that solution's own decision values, whatever order"
    " and delay the workers answer in. The decision values and the order of the solutions are left untouched, every"
    " solution is evaluated exactly once, and the outcome equals that of an unparallelized evaluation.",
    ["schedules", "configurations", "inputs"],
    "all completion orders and delays of the workers; all worker counts, sub-batch settings, population sizes,"
    " dtypes (including object-typed solutions), objective counts and extra evaluation data lengths; fitness functions of"
    " whole batches, of single solutions, and of single solutions decorated by rowwise",
    "one test starts real workers and never evaluates with them; the completion order of real workers is not controlled",
    [CORE, OBJ],
    [
        ("EvaluationActor.evaluate_batch_piece", CORE),
        ("Problem._evaluate_all", CORE),
        ("SolutionBatchPieces", CORE),
        ("rowwise", "src/evotorch/decorators.py"),
        ("ActorPool.map_unordered", "ray"),
    ],
    ["SolutionBatch.evals / values after Problem.evaluate"],
)
prop(
    "C02",
    "Work is cut and spread over workers exactly as configured",
    "A parallelized problem uses as many workers as requested (explicitly, or via the cluster-resource keywords), creates"
    " them once, and reuses them for later evaluations. Each evaluation hands every worker task at most the configured"
    " sub-batch size, or cuts the population into the configured number of near-equal pieces, or else into one"
    " near-equal piece per worker; with one worker or none, nothing leaves the main process.",
    ["configurations", "schedules", "histories"],
    "all worker/sub-batch settings, cluster resource situations, population sizes and sequences of evaluations",
    "tests never look at how evaluation work is divided, nor vary the cluster's resources",
    [CORE, MISC, GYM, NE],
    [("Problem.__init__ actor configuration", CORE), ("Problem._parallelize", CORE), ("SolutionBatchPieces", CORE)],
    ["sizes of the sub-batches seen by the fitness function in each worker", "number of workers"],
)
prop(
    "C03",
    "A failed parallel evaluation is reported and contaminates nothing",
    "If a worker fails, dies, or its answer is lost, or the waiting main process is interrupted, the evaluation call raises"
    " instead of returning, and at no time does any solution carry a fitness which does not belong to it: each row is"
    " either unevaluated or correct. A later evaluation that succeeds (after retrying, or after replacing the workers)"
    " delivers only correct results of its own, never leftovers of the failed one.",
    ["fault_sequences", "crash_points", "schedules"],
    "all positions of worker failures, deaths, lost answers and interrupts within evaluations, and all retry sequences",
    "no test injects a failure into a parallel evaluation",
    [CORE],
    [("Problem._evaluate_all", CORE), ("ActorPool draining", "ray"), ("Problem.kill_actors", CORE)],
    ["exceptions of Problem.evaluate", "SolutionBatch.evals"],
)
prop(
    "C04",
    "Hooks run once, in the right place; remote accessors keep worker order",
    "Every evaluation requested from the main problem triggers the before- and after-evaluation hooks exactly once each, in"
    " the main process, with the whole population, in registration order, the latter's returned items appearing in the"
    " problem's status; gradient requests likewise trigger the gradient hooks once; and each worker runs the"
    " worker-start hook once. Broadcast calls to the remote problem copies return one answer per worker, in worker"
    " order, no matter in which order workers respond. Reading and writing a field of one worker's problem, also an inner"
    " one, sees and changes the field of this worker alone, in the order of the requests.",
    ["schedules", "histories", "configurations"],
    "all worker answer orders, numbers of workers, sequences of evaluations, gradient requests and broadcasts",
    "tests check the set of remote indices with one schedule; hook counts under parallelization are untested",
    [CORE, HOOK],
    [("Problem.evaluate", CORE), ("Problem.sample_and_compute_gradients", CORE), ("RemoteMethod", CORE), ("Hook", HOOK)],
    ["calls observed by registered hooks", "status", "results of all_remote_problems()/all_remote_envs()"],
)
prop(
    "C05",
    "Each worker draws its own random numbers, determined by the problem's seed",
    "No two workers, and no worker and the main process, produce the same stream of random numbers, neither from the"
    " process-wide Python, NumPy and PyTorch generators nor from the problem's own generator. When the problem is"
    " seeded, the stream of the worker with a given index is a function of that seed only, not of the environment"
    " the worker process was started in.",
    ["configurations", "schedules", "inputs"],
    "all seeds, worker counts, worker start-up environments and schedules",
    "no test parallelizes a seeded problem or compares the workers' random streams",
    [CORE],
    [("Problem._parallelize seeds", CORE), ("EvaluationActor.__init__", CORE), ("Problem.manual_seed", CORE)],
    ["random numbers drawn inside workers"],
)
prop(
    "C06",
    "A seeded search is reproducible, whatever else happens in the process",
    "Running a search algorithm on a seeded problem with a deterministic fitness function gives identical populations,"
    " fitnesses and status at every step each time it is run: the state of the process-wide random generators, other"
    " code drawing from them in between and the wall clock make no difference. Neither do, when the populations of a"
    " parallelized problem are sampled by the main process, the number of workers, their answer order and delays.",
    ["schedules", "configurations", "histories"],
    "all search algorithms, ambient generator states, clock readings, worker counts and schedules",
    "tests never compare two whole runs under perturbed ambient randomness or scheduling",
    [CORE, GAUSS, GA, ME, CMA, PYCMA, OPS, OPR, DIST],
    [("Problem.generator", CORE), ("TensorMakerMixin", "src/evotorch/tools/tensormaker.py"), ("SearchAlgorithm.step", SA)],
    ["trajectory of populations, centers and status"],
)
prop(
    "C07",
    "Distributed gradient estimation equals its definition",
    "In distributed mode, the workers together sample the requested number of solutions (rounded up to even shares where"
    " antithetic sampling needs it), and the search distribution then moves by the average of the per-worker gradients"
    " weighted by their numbers of solutions (unweighted when the population size is adaptive), each gradient computed from that"
    " worker's own samples and fitnesses. The outcome does not depend on the order in which workers answer, and the"
    " reported mean fitness is the mean over all sampled solutions.",
    ["schedules", "configurations"],
    "all completion orders, worker counts, population sizes, sub-batch settings, rankings and distribution-based algorithms",
    "no test runs a distribution-based algorithm in distributed mode",
    [CORE, GAUSS, DIST],
    [
        ("Problem.sample_and_compute_gradients", CORE),
        ("GaussianSearchAlgorithm._step_distributed", GAUSS),
        ("Distribution.compute_gradients", DIST),
    ],
    ["center/stdev/mean_eval in the status", "samples and fitnesses seen by workers"],
)
prop(
    "C08",
    "Adaptive population sizes stop at the interaction or size limit",
    "When a distribution-based search is told to sample until a number of simulator interactions is made, it keeps adding"
    " whole sub-populations until the interactions of this generation exceed the threshold or the maximum population"
    " size is reached, and stops right there; in distributed mode the same holds for each worker with its proportional share."
    " All solutions sampled in the generation contribute to the update and to the reported population size.",
    ["schedules", "inputs", "histories"],
    "all episode length patterns of the environment, thresholds, size limits, worker counts and schedules",
    "no test exercises interaction-driven population growth",
    [GAUSS, CORE, GYM],
    [("GaussianSearchAlgorithm._step_non_distributed", GAUSS), ("Problem._sample_and_compute_gradients", CORE)],
    ["number of sampled solutions per generation", "status popsize", "environment interactions"],
)
prop(
    "C09",
    "Interaction and episode totals are conserved",
    "For reinforcement learning problems the reported totals of simulator interactions and episodes always equal the numbers"
    " of environment steps and episodes that were really made for evaluating solutions so far, summed over the main"
    " process and all workers. This holds for every distribution of the work, answer order, sequence of"
    " evaluations and save/restore of the problem, and nothing is counted twice.",
    ["schedules", "histories", "configurations"],
    "all episode length patterns, worker counts, schedules, evaluation sequences and copies/restores of the problem",
    "tests check totals at most for one unparallelized evaluation",
    [GYM, VGYM, CORE],
    [("sync data between main and actors", GYM), ("sync data between main and actors", VGYM), ("Problem._sync_after", CORE)],
    ["status total_interaction_count / total_episode_count"],
)
prop(
    "C10",
    "Observation statistics cover every observation exactly once",
    "With observation normalization enabled, after each evaluation the main problem's statistics (count, mean, standard"
    " deviation) are those of all observations seen in all evaluation episodes so far by all workers, each observation counted once."
    " Every worker starts an evaluation from the main problem's statistics, and observations are normalized with the"
    " statistics current at that point.",
    ["schedules", "histories", "configurations"],
    "all observation sequences, worker counts, schedules and sequences of evaluations, for both kinds of RL problems",
    "tests exercise the running statistics only as isolated arithmetic",
    [GYM, VGYM, RN, RS],
    [("RunningStat.update", RS), ("RunningNorm.update", RN), ("pop_observation_stats", GYM), ("pop_observation_stats", VGYM)],
    ["get_observation_stats()", "inputs received by the policies"],
)
prop(
    "C11",
    "An episode-based fitness is the mean return of the configured episodes",
    "For a classical environment, a solution's fitness is the average over the configured number of episodes of the summed,"
    " configured-adjusted rewards (constant decrease, scheduled alive bonus), each episode ending at the environment's"
    " own termination or truncation or at the configured length, and the policy receiving the current observation and,"
    " if recurrent, a memory that starts fresh in each episode. This holds for every pattern of episode ends and rewards.",
    ["inputs", "histories", "fault_sequences"],
    "all reward/termination patterns of the environment, episode counts and lengths, bonus schedules, policies",
    "tests use one or two real environments whose termination patterns are not controlled",
    [GYM, RL],
    [("GymNE._rollout", GYM), ("AliveBonusScheduleWrapper", RL)],
    ["fitness", "actions received by the environment"],
)
prop(
    "C12",
    "Vectorized episode scoring treats every solution as if it ran alone",
    "For a vectorized environment, each solution's fitness equals the average return over its own configured number of"
    " episodes, exactly as if it had been run alone in its own sub-environment with its own parameters and policy"
    " memory, no matter when and in which order the sub-environments end. Nothing that happens after a solution finished its"
    " episodes, or in another solution's sub-environment, influences it.",
    ["inputs", "schedules", "configurations"],
    "all termination/reward patterns per sub-environment, population sizes, environment count limits, episode counts",
    "tests use fixed dummy environments with a single termination pattern",
    [VGYM, VRL],
    [("VecGymNE._evaluate_subbatch", VGYM), ("Policy.reset", VRL), ("SyncVectorEnv", VRL)],
    ["fitness", "actions received by the sub-environments"],
)
prop(
    "C13",
    "The synchronous vector environment keeps its sub-environments apart",
    "Stepping the synchronous vector environment delivers the i-th action to the i-th sub-environment and returns that"
    " sub-environment's observation, reward and end flags in position i; an ended sub-environment is reset at once"
    " and its fresh observation is returned. When an episode limit is set, a sub-environment which used up its episodes"
    " is no longer stepped and yields dummy data until the next reset.",
    ["schedules", "inputs", "histories"],
    "all orders and coincidences of sub-environment terminations, resets and errors",
    "tests use one dummy environment with one termination schedule",
    [VRL],
    [("SyncVectorEnv.step", VRL), ("SyncVectorEnv.reset", VRL)],
    ["calls reaching the sub-environments", "return values of reset/step"],
)
prop(
    "C14",
    "Copies of a problem carry its whole state and are independent of it",
    "A problem copied or saved and restored at any point of its life (before or after evaluations, parallelized or not)"
    " evaluates and samples like the original: same fitnesses, random stream, best/worst records, counters and observation"
    " statistics, the restored workers continuing from the state of the old ones. Working with either of the two"
    " never changes the other.",
    ["crash_points", "histories", "configurations"],
    "all points at which a copy/save is taken, all problem kinds, all later interleavings of use of original and copy",
    "tests copy only never-evaluated, unparallelized problems",
    [CORE, NE, GYM, VGYM, SNE, CLONE],
    [("Problem._get_cloned_state", CORE), ("Problem._remote_states", CORE), ("deep_clone", CLONE)],
    ["evals, status, generated values of original and copy"],
)
prop(
    "C15",
    "A search restored from a saved copy continues as if never interrupted",
    "Saving a search algorithm between two steps and restoring it in a fresh process continues with exactly the same"
    " populations, fitnesses, step counts and records as the uninterrupted search on the same seeded problem,"
    " for every algorithm and every step at which the crash happens. Taking the saved copy does not disturb the running search.",
    ["crash_points", "histories", "configurations"],
    "all algorithms, all crash points between steps, repeated crashes",
    "no test saves and restores a search algorithm",
    [SA, CORE, GAUSS, GA, ME, CMA, PYCMA],
    [("SearchAlgorithm state", SA), ("Problem.__getstate__", CORE), ("Distribution/optimizer state", GAUSS)],
    ["trajectory after the restore"],
)
prop(
    "C16",
    "Killing the workers and carrying on loses and duplicates nothing",
    "After the workers of a problem are killed (at any time, even if some already died, even repeatedly or when there were"
    " none), the next evaluation starts the configured number of fresh workers and gives correct results."
    " Best/worst records, interaction and episode totals and observation statistics continue from their previous"
    " values, without loss or double counting.",
    ["crash_points", "histories", "fault_sequences"],
    "all points of killing, worker deaths before it, problem kinds and later histories",
    "no test kills workers",
    [CORE, GYM, VGYM],
    [("Problem.kill_actors", CORE), ("Problem._parallelize", CORE)],
    ["status before and after", "evals"],
)
prop(
    "C17",
    "Steps, runs, hooks and status follow one fixed protocol",
    "Each step of a search runs the before-step hooks, the generation, the after-step hooks and the log hooks in this order,"
    " once each, increments the iteration counter by one, and shows in the status the values of this very iteration"
    " (including what hooks and the problem reported), each computed at most once and only on demand; a run performs exactly the requested number of steps and then triggers the"
    " end-of-run hooks once. Errors in hooks or evaluations propagate, are not counted as finished steps before the counter"
    " point, and clock jumps affect only reported times. A hook calls each of its functions once, in order, with its own"
    " arguments followed by those of the call, and returns what they returned, merged, or an error if that does not fit together.",
    ["histories", "fault_sequences", "configurations"],
    "all sequences of runs and steps, hook sets, failing hooks/evaluations at any point, clock jumps",
    "tests run a few steps without failures and with the real clock",
    [SA, HOOK, "src/evotorch/core.py"],
    [("SearchAlgorithm.step", SA), ("SearchAlgorithm.run", SA), ("LazyReporter", SA)],
    ["order of hook calls", "status", "step_count", "first_step_datetime"],
)
prop(
    "C18",
    "Loggers record exactly the generations they are configured for",
    "A logger records at the configured interval (and, if requested, after the first step), once per recorded generation, the"
    " status of that very generation, and later changes of the search never alter what was already recorded. Several loggers"
    " attached to the same search do not influence each other, and a failing one does not corrupt the others' history.",
    ["histories", "configurations", "fault_sequences"],
    "all intervals, first-step settings, numbers of runs and steps, sets of loggers, failures of their outputs",
    "tests check one interval on a short run",
    [LOG],
    [("Logger.__call__", LOG), ("PandasLogger", LOG), ("StdOutLogger", LOG), ("ScalarLogger", LOG)],
    ["printed text", "data frame", "backend calls"],
)
prop(
    "C19",
    "Saved results files are complete, correctly named and never lost",
    "The file a pickling logger names as its last saved one always exists, is complete, and holds the data of the generation"
    " it is named after; saves happen at the configured interval and additionally at the end of a run unless that generation is"
    " saved already. A failing, torn or interrupted write is reported, never announced as saved, and leaves"
    " the files of earlier generations intact.",
    ["crash_points", "fault_sequences", "histories"],
    "all disk fault positions (open/write/flush/close errors, full disk, crash), intervals, runs, clock jumps",
    "tests never meet a disk error or crash while saving",
    [LOG],
    [("PicklingLogger.save", LOG), ("PicklingLogger._final_save", LOG)],
    ["files in the items directory", "last_file_name", "last_generation", "unpickle_last_file"],
)
prop(
    "C20",
    "Best and worst records are the extremes of the whole history",
    "At any time the best and worst solutions reported by the problem are, per objective and optimization sense, the extremes"
    " over all solutions evaluated so far through it, with the decision values that produced them; the best never gets worse."
    " Later modifications of populations, failed evaluations and worker schedules do not alter these records.",
    ["histories", "schedules", "fault_sequences"],
    "all sequences of evaluations, objectives, senses, modifications of batches, failures",
    "tests look at single evaluations",
    [CORE],
    [("Problem._get_best_and_worst", CORE)],
    ["status best / worst / best_eval / worst_eval"],
)
prop(
    "C21",
    "A population never shows a fitness that is not its solutions' own",
    "After every step of every population-based or distribution-based search, each solution of the shown population"
    " carries exactly the fitness of its own current decision values, the population has the configured size, respects strict"
    " bounds of the problem, and the reported per-population statistics are those of this population."
    " This holds for any worker count and schedule.",
    ["schedules", "histories", "configurations"],
    "all algorithms and operator settings, worker counts and schedules, over many generations",
    "tests check single operators or a few generations, unparallelized",
    [GA, GAUSS, CMA, PYCMA, ME, OPS, OPR, CORE],
    [("ExtendedPopulationMixin", GA), ("SinglePopulationAlgorithmMixin", SA), ("SolutionBatch.take", CORE)],
    ["population.values / evals after each step", "status pop_best, mean_eval, median_eval"],
)
prop(
    "C22",
    "An elitist search never loses its best solution",
    "In elitist genetic algorithms (generational, steady-state, cooperative-coevolution) the best fitness in the population never"
    " gets worse from one generation to the next, and a generation's survivors are exactly the best of parents and offspring together"
    " (non-dominated sorting for several objectives), each of them a real parent or evaluated offspring.",
    ["histories", "schedules", "configurations"],
    "all operator sets, sizes, objectives and senses, worker schedules, over many generations",
    "tests check operators in isolation",
    [GA, CORE, OPS],
    [("GeneticAlgorithm._step", GA), ("SteadyStateGA", GA), ("Cosyne._step", GA), ("SolutionBatch.take_best", CORE)],
    ["population after each step", "solutions seen by the fitness function"],
)
prop(
    "C23",
    "The quality-diversity archive keeps the best solution of every cell",
    "After every step, a cell of the archive is marked filled exactly if some evaluated solution so far had its features within the cell's"
    " ranges, and then shows the best such solution seen so far, with its own fitness and features; filled cells never become empty and"
    " their fitness never gets worse. This holds for any worker schedule.",
    ["histories", "schedules", "inputs"],
    "all feature grids, senses, operator sets, feature/fitness patterns (including out-of-grid features), schedules",
    "tests check none of the archive history",
    [ME],
    [("MAPElites._step", ME), ("_best_solution_considering_all_features", ME), ("MAPElites.make_feature_grid", ME)],
    ["population, filled"],
)
prop(
    "C24",
    "Search distributions obey the configured limits at every step",
    "In every generation the standard deviation of a distribution-based search stays within its configured minimum and maximum and"
    " changes by at most the configured proportion, symmetric sampling yields mirrored pairs around the center, and"
    " the center moves only as a function of this generation's samples and fitnesses (as given by the algorithm's update rule)."
    " CMAES moves as the published rules say for the given rates, and PyCMAES like the pycma it wraps; this holds with and without remote workers."
    " The optimizers which make these steps have a history of their own each, and refuse invalid gradients and settings without any effect.",
    ["histories", "schedules", "configurations", "fault_sequences"],
    "all limits, learning rates, optimizers, rankings, fitness landscapes, worker settings, many generations",
    "tests do not run searches over many generations with limits",
    [GAUSS, DIST, "src/evotorch/optimizers.py"],
    [("GaussianSearchAlgorithm._update_distribution", GAUSS), ("modify_tensor", MISC)],
    ["status center, stdev; population values"],
)
prop(
    "C25",
    "Restarting searches restart exactly on termination, with the right settings",
    "A restarting search steps its inner search once per step, replaces it by a fresh one exactly when it terminated, counts"
    " its starts, and (for the growing-population variant) multiplies the population size at each restart once the fitness"
    " spread falls below the threshold. Its status can be read and logged after every step, and the problem's"
    " best record survives restarts.",
    ["histories", "configurations", "schedules"],
    "all termination patterns of the inner search, multipliers, thresholds, inner algorithms, loggers",
    "no test runs a restarting search",
    [RST, MRST],
    [("Restart._step", RST), ("IPOP._search_algorithm_terminated", MRST)],
    ["inner search objects", "num_restarts", "status"],
)
prop(
    "C26",
    "Supervised problems score every network on the minibatches they should",
    "For a supervised problem, a network's fitness is the loss averaged over the configured number of minibatches drawn from the"
    " dataset; with a common minibatch all networks of one sub-batch are scored on the same minibatches; each epoch of a data"
    " loader covers the dataset before repeating. This holds when spread over workers and across epochs.",
    ["histories", "schedules", "configurations"],
    "all dataset sizes, minibatch settings, worker counts and schedules, long histories crossing epochs",
    "no test exercises minibatch bookkeeping",
    [SNE, NE],
    [("SupervisedNE.get_minibatch", SNE), ("SupervisedNE._evaluate_batch", SNE)],
    ["fitness", "minibatches given to the networks"],
)
prop(
    "C27",
    "A neuroevolution fitness belongs to the network with those parameters",
    "Every evaluation of a network runs on a network whose parameters are exactly the solution's decision values, and a network made"
    " for the user is independent of later evaluations. This holds in the main process and in workers, for every order of"
    " evaluations, in-between creations of networks, saves and restores.",
    ["histories", "schedules", "configurations"],
    "all kinds of network definitions, evaluation histories, worker schedules, copies of the problem",
    "tests instantiate networks but do not interleave evaluations, copies and network creation",
    [NE, "src/evotorch/neuroevolution/net/misc.py"],
    [("NEProblem.parameterize_net", NE), ("NEProblem.make_net", NE)],
    ["parameters seen by the evaluation function", "parameters of made networks"],
)
prop(
    "C28",
    "The number of vectorized environments never exceeds its limit",
    "When a maximum number of environments is configured for a vectorized reinforcement learning problem, no evaluation uses more"
    " sub-environments at the same time than allowed, in total over all workers, and still every solution is"
    " evaluated exactly once, whatever the population size.",
    ["configurations", "schedules", "histories"],
    "all limits, population sizes, worker counts and evaluation sequences",
    "no test sets the limit on a parallelized problem",
    [VGYM],
    [("VecGymNE._parallelize", VGYM), ("VecGymNE._evaluate_batch", VGYM)],
    ["sizes of vectorized environments created", "evals"],
)
prop(
    "C29",
    "Exported policies and saved RL solutions match what was evaluated",
    "A policy exported from a solution acts exactly like that solution acted in its evaluation given the current observation"
    " statistics and action limits, and stays unchanged by later evaluations. A saved solution file contains the solution, that"
    " policy, the statistics and the totals of the moment; a failed or interrupted save is reported, disturbs neither the search nor the file saved earlier.",
    ["histories", "fault_sequences", "inputs"],
    "all policies, statistics histories, observation inputs, disk faults",
    "tests do not compare exported policies with evaluated behaviour over a history",
    [GYM, VGYM, RL, RN],
    [("GymNE.to_policy", GYM), ("VecGymNE.to_policy", VGYM), ("ObsNormWrapperModule", RL), ("save_solution", GYM)],
    ["actions of the exported policy", "file contents"],
)
prop(
    "C30",
    "User-defined synchronization brackets every parallel evaluation",
    "When a problem defines data to be synchronized, every worker receives the main problem's current data before any task of that"
    " evaluation or gradient request, and after all tasks finished the main problem receives exactly one reply per worker,"
    " in worker order. When no data is defined, no synchronization happens.",
    ["schedules", "histories", "configurations"],
    "all worker counts, schedules, sub-batch settings and sequences of evaluations and gradient requests",
    "no test defines synchronization data",
    [CORE],
    [("Problem._sync_before", CORE), ("Problem._sync_after", CORE)],
    ["calls of the synchronization methods in main and workers"],
)
prop(
    "C31",
    "Changing solutions invalidates their fitness, under any history",
    "Over any sequence of reading, writing, slicing, picking, concatenating, copying and (possibly failing) evaluating operations on populations,"
    " a solution whose decision values were opened for modification without asking to keep its fitness is shown as"
    " unevaluated until it is evaluated again; views share the data of their source, copies do not."
    " Read access never allows modification.",
    ["histories", "fault_sequences", "inputs"],
    "all operation sequences, numeric and object-typed solutions, failing evaluations",
    "tests check single operations",
    [CORE, OBJ, "src/evotorch/tools/readonlytensor.py"],
    [("SolutionBatch.access_values", CORE), ("SolutionBatch.forget_evals", CORE), ("Solution.set_values", CORE)],
    ["evals, values, is_evaluated of batches and solutions"],
)
prop(
    "C32",
    "A problem used as a plain function evaluates what it is given",
    "A callable evaluator made from a problem returns, for a batch of decision vectors with any number of leading batch dimensions,"
    " the fitnesses (and extra data) of exactly these vectors in exactly this arrangement, parallelized or not, under any schedule,"
    " leaving its input unchanged; failures are raised.",
    ["schedules", "inputs", "fault_sequences"],
    "all batch shapes, objective selections, worker settings, schedules and worker failures",
    "tests do not use the evaluator with workers",
    [CORE],
    [("ProblemBoundEvaluator", CORE)],
    ["returned tensors"],
)
prop(
    "C33",
    "Experiment trackers receive each recorded generation once, in order",
    "The loggers for external experiment trackers send, for every recorded generation, the scalar items of that generation's status"
    " once, in order, under the configured names and, where the tracker takes one, with the right step number. An unavailable tracker's error is"
    " raised to the caller and later generations are recorded normally.",
    ["histories", "fault_sequences", "configurations"],
    "all trackers, name groupings, intervals, backend failures",
    "the trackers are not exercised by tests",
    [LOG],
    [("SacredLogger", LOG), ("MlflowLogger", LOG), ("NeptuneLogger", LOG), ("WandbLogger", LOG), ("ScalarLogger", LOG)],
    ["calls reaching the tracker clients"],
)

prop(
    "C34",
    "Variation operators keep to their contract under any random stream",
    "Whatever random numbers are drawn, a cross-over makes the configured number of children, each pair recombined from two parents"
    " of the given batch with no more cuts than configured, at uniformly drawn places (SBX: around the middle of two parents), the parents being winners of"
    " tournaments of the configured size; a mutation changes the configured fraction of the variables by the configured amount; a"
    " co-evolutionary permutation only permutes each variable among the solutions and leaves the best one alone unless told otherwise."
    " Bounds hold, the given batch is untouched, children are independent and unevaluated, and the problem's seed alone decides them.",
    ["histories", "inputs", "configurations"],
    "all operators of real-valued and sequence solutions, batch sizes, objectives, whole batches and slices, random streams including the ends of"
    " their ranges, foreign random draws in between",
    "existing tests run operators with one stream and look at shapes",
    [OPS, OPR, OPSEQ],
    [("CrossOver", OPS), ("GaussianMutation", OPR), ("MultiPointCrossOver", OPR), ("CosynePermutation", OPR), ("CutAndSplice", OPSEQ)],
    ["batches returned by the operators", "the batch given to them"],
)

prop(
    "C35",
    "A generation applies, evaluates and selects what it says, even with noise",
    "In each generation of a genetic algorithm, MAP-Elites or CoSyNE the operators are applied in their order, each to what the previous one made,"
    " the first one to the current population with its current results. Exactly the resulting children are evaluated, plus the parents in the"
    " first generation and whenever re-evaluation is asked for. With a fitness that differs at each evaluation, the next population consists of"
    " the best of these solutions (several objectives: by fronts, then by crowding distance; non-elitist: children first; archive: per cell), each with the"
    " very result it got in this generation or, without re-evaluation, when it was first evaluated.",
    ["histories", "schedules", "configurations"],
    "operators given as functions, in-place and copying operators and cross-overs in chains or by use(), numbers of children, objectives, vectors and objects,"
    " parallel evaluation with stalls, copies of the search, foreign random draws in between",
    "existing tests use deterministic fitness functions, with which evaluations of different generations look alike",
    [GA, ME, CORE],
    [("ExtendedPopulationMixin", GA), ("GeneticAlgorithm", GA), ("SteadyStateGA", GA), ("Cosyne", GA), ("MAPElites", ME), ("SolutionBatch.take_best", CORE)],
    ["calls of the operators", "evaluations made", "population after each step"],
)

prop(
    "C36",
    "Batched tensor containers behave like Python containers, item by item",
    "After any history of operations the memory, dictionary, list and bag structures hold, for every batch item, what a plain Python container given the same"
    " operations on that item holds, whatever was left in the memory they were made in; masked-out items stay as they were. An operation which cannot be carried"
    " out (missing key, index out of range, full, empty, wrong shape) is refused and changes nothing. Saved and restored or copied containers go on in the same"
    " way, and a bag returns what was put into it in a uniformly random order which depends only on the seed.",
    ["histories", "inputs", "fault_sequences"],
    "operations, masks, batch shapes, value shapes, key spaces with offsets, dtypes, with and without verification, impossible operations in between,"
    " pickling and deep copies in between, contents of uninitialized memory",
    "existing tests use a single batch dimension, follow a few fixed operations and get zeroed memory by luck",
    ["src/evotorch/tools/structures.py"],
    [("CMemory, CDict, CList, CBag", "src/evotorch/tools/structures.py")],
    ["return values", "exceptions"],
)
prop(
    "C37",
    "States of functional searches are checkpoints of independent searches",
    "Asking and telling the functional CEM, PGPE, ClipUp, Adam and SGD changes neither the given state nor the other arguments: going on from any earlier state,"
    " also in another process, leads to the very same next states, and to the same populations if seeded alike. Each item of a batched search follows the update"
    " rule of a search of its own, with its own hyperparameters and limits, even when the evaluation of another item fails; its samples come from its own"
    " distribution and are independent of the other items' samples. Functional samplers and gradient estimators keep nothing between calls, failed ones included,"
    " and return, for each item of a batch of parameters, independent samples and the gradient defined by its samples, fitnesses, ranking and divisors.",
    ["histories", "crash_points", "fault_sequences", "configurations"],
    "crashes with return to an earlier checkpoint, batch shapes, hyperparameters given as scalars, vectors or batches, optimizers including those of the user,"
    " ranking methods, failed and infinite evaluations of some items",
    "existing tests follow each search once, straight on, and check little more than progress",
    ["src/evotorch/algorithms/functional", "src/evotorch/decorators.py", "src/evotorch/distributions.py"],
    [("cem, pgpe, adam, clipup, sgd and their ask and tell", "src/evotorch/algorithms/functional"), ("expects_ndim", "src/evotorch/decorators.py"),
     ("make_functional_sampler, make_functional_grad_estimator", "src/evotorch/distributions.py")],
    ["returned states and populations"],
)

prop(
    "C38",
    "Object arrays and immutable containers keep what was put into them",
    "What was put into an ObjectArray or made immutable stays as it was whatever happens afterwards to the objects it came from, to their copies, or to the"
    " process (it is the same after a restoration), and every attempt to change it or a read-only tensor is refused. Views made by slicing show later writes of"
    " each other, and selections by indices or masks, clones, pickled and numpy copies do not. Copies of containers and problems have the layout of their originals"
    " (parts which occur twice, parts which contain themselves) and share no part with them.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "histories of up to 24 writes, selections, views, copies and restorations over up to 6 object arrays; nested containers up to depth 3 as content; changes by the"
    " user after giving; forbidden writes of twelve kinds",
    "existing tests look at one array and one write at a time",
    ["src/evotorch/tools/objectarray.py", "src/evotorch/tools/immutable.py", "src/evotorch/tools/readonlytensor.py", "src/evotorch/tools/cloning.py"],
    [("ObjectArray", "src/evotorch/tools/objectarray.py"), ("as_immutable, mutable_copy, ImmutableList, ImmutableSet, ImmutableDict", "src/evotorch/tools/immutable.py"),
     ("ReadOnlyTensor, read_only_tensor, as_read_only_tensor", "src/evotorch/tools/readonlytensor.py"), ("deep_clone, Clonable", "src/evotorch/tools/cloning.py")],
    ["stored elements", "exceptions"],
)

prop(
    "C39",
    "Running statistics are those of all the observations seen, and of no others",
    "After any history of updates, masked updates, hand-overs of other collectors, copies, restorations and refused updates, the count, the sums, the mean and the"
    " standard deviation of a RunningNorm or RunningStat are those of exactly the observations it was given. Observations which are masked out, whatever they are, the"
    " tensors the user changes afterwards, and layers or copies made earlier have no influence on it.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "histories of up to 25 updates, normalizations, hand-overs, copies and refusals over up to 6 collectors; observation shapes up to 2 dimensions; batches of 0 to 4"
    " observations with and without masks; not-a-number and infinite masked observations",
    "existing tests give a few observations to one collector; the failing histories need an empty or masked first batch, or a tensor which is used again",
    ["src/evotorch/neuroevolution/net/runningnorm.py", "src/evotorch/neuroevolution/net/runningstat.py"],
    [("RunningNorm, ObsNormLayer", "src/evotorch/neuroevolution/net/runningnorm.py"), ("RunningStat", "src/evotorch/neuroevolution/net/runningstat.py")],
    ["count, sums, mean and stdev", "normalized observations", "outputs of layers", "exceptions"],
)

prop(
    "C40",
    "Each network of a policy has its own memory, which survives as it was",
    "After any history of forward passes, partial resets, parameter changes, copies and restorations, each row of a vectorized Policy and each stateful network answers as"
    " the same network run alone from its own last reset. Outputs returned and parameters given earlier stay as they were.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "histories of up to 18 operations; up to 5 rows; up to 3 layers (RNN, LSTM, linear, activations) of up to 3 units; resets by masks, indices, slices and numbers",
    "existing tests look at one forward pass",
    ["src/evotorch/neuroevolution/net/vecrl.py", "src/evotorch/neuroevolution/net/statefulmodule.py", "src/evotorch/neuroevolution/net/layers.py",
     "src/evotorch/neuroevolution/net/multilayered.py", "src/evotorch/neuroevolution/net/functional.py"],
    [("Policy", "src/evotorch/neuroevolution/net/vecrl.py"), ("StatefulModule", "src/evotorch/neuroevolution/net/statefulmodule.py"),
     ("RNN, LSTM, LocomotorNet", "src/evotorch/neuroevolution/net/layers.py"), ("MultiLayered", "src/evotorch/neuroevolution/net/multilayered.py")],
    ["outputs of networks", "parameters", "exceptions"],
)

prop(
    "C41",
    "Each source of random numbers has its own stream, and draws what was asked",
    "What a problem with a seed, a generator, or the global stream draws is decided by its own seed and its own earlier draws alone, whatever else draws in between, and"
    " goes on in copies and after restorations where it was. Everything drawn has the requested shape and dtype, lies within the bounds for every dtype, integers are"
    " equally frequent, and nothing but the result is written to.",
    ["histories", "crash_points", "configurations", "inputs"],
    "histories of up to 22 draws, refused draws, copies and evaluations over several sources; 10 dtypes; bounds up to the ends of the integer dtypes; new tensors,"
    " existing tensors, slices of them and scalars; draws of 3000 numbers for the frequencies",
    "existing tests draw a few numbers of the default dtypes from one source",
    ["src/evotorch/tools/misc.py", "src/evotorch/tools/tensormaker.py", CORE],
    [("make_uniform, make_gaussian, make_randint", "src/evotorch/tools/misc.py"), ("TensorMakerMixin", "src/evotorch/tools/tensormaker.py"),
     ("Problem.generate_values, Problem.generate_batch, Problem.manual_seed", CORE)],
    ["drawn tensors", "state of the global random stream", "exceptions"],
)

# ---- properties which this technique does not address

prop(
    "N01",
    "Pareto sorting, crowding distances and rankings are correct",
    "Pareto ranks, crowding distances and fitness-to-weight rankings match their mathematical definitions for all inputs.",
    ["inputs"],
    "all evaluation matrices",
    "tests sample a few matrices",
    ["src/evotorch/operators/functional.py", "src/evotorch/tools/ranking.py", CORE],
    [("rank", "src/evotorch/tools/ranking.py")],
    ["return values"],
)
prop(
    "N04",
    "Network description strings build the network they describe",
    "Every valid network description string yields the described sequence of layers, and invalid ones are rejected.",
    ["inputs"],
    "all description strings",
    "tests sample strings",
    ["src/evotorch/neuroevolution/net/parser.py", "src/evotorch/neuroevolution/net/layers.py"],
    [("str_to_net", "src/evotorch/neuroevolution/net/parser.py")],
    ["returned modules"],
)
prop(
    "N05",
    "Tensor making, cloning and immutability helpers honour their contracts",
    "Tensor creation, cloning, read-only and immutable-container helpers return values of the requested dtype, device and mutability.",
    ["inputs"],
    "all argument combinations",
    "tests sample arguments",
    ["src/evotorch/tools/tensormaker.py", "src/evotorch/tools/misc.py", "src/evotorch/tools/immutable.py"],
    [("TensorMakerMixin", "src/evotorch/tools/tensormaker.py")],
    ["return values"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
