"""Source of properties.jsonl: python3 tools/properties.py writes it (and validates it when jsonschema is there)."""
import json
from pathlib import Path

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=quant),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


OPT = "nevergrad/optimization/"
PAR = "nevergrad/parametrization/"

P(
    "C01",
    "minimize spends exactly its budget, whatever order evaluations complete in",
    "Whatever the order and timing in which concurrent evaluations complete, a minimize run launches exactly "
    "budget evaluations, never has more than num_workers of them in flight, and tells each loss exactly once, "
    "to the candidate whose arguments produced it. In batch mode no evaluation starts while the previous batch "
    "is unfinished, and in steady mode a free worker is refilled as soon as a completion is processed. "
    "The run then terminates and returns the recommendation computed from all the losses.",
    ["schedules", "configurations"],
    "every completion schedule of the executor's jobs (which running jobs answer done at each poll), for every "
    "small budget, number of workers, batch/steady mode, and number of evaluations already asked and told by hand before",
    "The tests run minimize with a sequential executor, a thread pool whose timing is whatever the OS gives, and "
    "one mocked order; they never enumerate completion orders nor the polls at which a job becomes ready.",
    [OPT + "base.py", OPT + "utils.py", "nevergrad/common/tools.py"],
    [("main loop of minimize", OPT + "base.py:Optimizer.minimize"), ("sequential executor", OPT + "utils.py:SequentialExecutor")],
    [("_running_jobs/_finished_jobs", "jobs in flight / to be told", OPT + "base.py:Optimizer")],
    ["calls of executor.submit, objective function, tell callbacks, num_ask/num_tell, returned candidate"],
)
P(
    "C02",
    "An interrupted minimize resumes without losing or repeating an evaluation",
    "If a minimize run is interrupted by an exception raised while polling a job, reading its result, sleeping, evaluating a "
    "constraint function or in a callback, calling minimize again on the same optimizer completes the "
    "budget: every candidate that was submitted is told exactly once overall and no evaluation is submitted twice. "
    "The same holds when the optimizer is dumped to disk and loaded between the interruption and the resumption.",
    ["fault_sequences", "crash_points", "schedules"],
    "every single (and every pair of) interruption point(s) among the polls, results, sleeps, callbacks and constraint calls of a run, "
    "combined with bounded completion schedules, with and without a dump/load before resuming",
    "One test interrupts one run at one point; the order of the bookkeeping (removing a finished job only after it was told) "
    "matters at every point of the loop.",
    [OPT + "base.py"],
    [("pop of a finished job after its tell", OPT + "base.py:Optimizer.minimize"), ("pickle dump/load", OPT + "base.py:Optimizer.dump")],
    [("_running_jobs/_finished_jobs", "jobs in flight / to be told", OPT + "base.py:Optimizer")],
    ["submitted arguments, told (candidate, loss) pairs, counters"],
)
P(
    "C03",
    "Early stopping and time limits stop asking, and pending results are kept",
    "When a stopping criterion triggers, minimize asks no further candidate, still tells every evaluation already launched, and returns the "
    "best told candidate. The no-improvement, loss-tolerance and timer criteria trigger exactly when "
    "their documented condition over the history of tells is met, neither earlier nor later. A max_time limit stops the loop at "
    "the first iteration past the limit and leaves the unfinished evaluations resumable.",
    ["histories", "schedules"],
    "all loss histories over a small loss alphabet up to the bound, all windows/tolerances, all (virtual) clock readings, combined with "
    "all completion schedules of a parallel run",
    "Tests check one loss sequence per criterion and sequential runs only; the condition depends on the whole history.",
    [OPT + "callbacks.py", OPT + "base.py", "nevergrad/common/errors.py"],
    [("EarlyStopping", OPT + "callbacks.py:EarlyStopping"), ("NevergradEarlyStopping handling", OPT + "base.py:Optimizer.minimize")],
    [],
    ["number of submits after the trigger, tells, returned candidate"],
)
P(
    "C04",
    "Ask/tell ledger is exact for every interleaving of ask, tell and suggest",
    "After any sequence of ask, tell and suggest, num_ask equals the number of asks, num_tell the number of tells, and num_tell_not_asked "
    "the number of tells of candidates which the optimizer did not generate itself (or which were already told). "
    "Suggestions come out last-in-first-out, before any generated point, with exactly the suggested value; "
    "generated candidates are pairwise distinct objects, frozen, and get the loss they were told.",
    ["histories"],
    "every sequence of ask / tell (of any pending, already told or foreign candidate) / suggest operations up to the depth bound, "
    "for representative optimizers of every family",
    "Tests use the regular ask-then-tell pattern; interleavings with suggestions, foreign candidates and double tells are exponential in number.",
    [OPT + "base.py"],
    [("ask/tell", OPT + "base.py:Optimizer.ask, Optimizer.tell"), ("suggest", OPT + "base.py:Optimizer.suggest")],
    [("_asked", "uids waiting for their tell", OPT + "base.py"), ("_suggestions", "stack of suggested candidates", OPT + "base.py")],
    ["num_ask, num_tell, num_tell_not_asked, candidates returned by ask"],
)
P(
    "C05",
    "Best-point tracking equals a recomputation from the full history",
    "At any time the tracked best of each criterion (optimistic, pessimistic, average, minimum) is a told point whose estimate, as "
    "recomputed from the complete list of its evaluations, is minimal over all told points of the current archive. "
    "For optimizers without their own rule, the recommendation is the minimum-loss candidate for a deterministic function "
    "and the pessimistic best otherwise, including when a point's estimate degrades after re-evaluation.",
    ["histories"],
    "every history of tells (new points, repeated points, ties, infinite, NaN and huge losses) up to the depth bound over a finite alphabet of points and losses",
    "Whether the incremental update (with its reboot when the best degrades) equals the recomputation depends on the order of every repeated evaluation; tests use a few random sequences.",
    [OPT + "base.py", OPT + "utils.py"],
    [("archive and bests update", OPT + "base.py:Optimizer._update_archive_and_bests"), ("MultiValue", OPT + "utils.py:MultiValue")],
    [("archive", "point -> aggregated evaluations", OPT + "base.py"), ("current_bests", "best record per criterion", OPT + "base.py")],
    ["current_bests, archive, provide_recommendation, recommend"],
)
P(
    "C06",
    "Archive pruning bounds memory but never drops a best point",
    "The number of distinct points remembered never reaches the announced maximum (when it is more than three times the announced minimum) after a tell, and pruning keeps, unchanged, every point which is strictly "
    "among the announced number of best points for any of the optimistic, pessimistic or average criterion. "
    "It drops points only when the maximum is reached, and as long as no point is evaluated twice the recommendation is the same as without pruning.",
    ["histories", "inputs"],
    "every archive content over a small alphabet of evaluation multisets (with ties) for every small (min_len, max_len), and every tell history on an optimizer with small pruning bounds",
    "A test checks one archive; ties and differing criteria make the quantile-based selection subtle.",
    [OPT + "utils.py", OPT + "base.py"],
    [("Pruning", OPT + "utils.py:Pruning")],
    [],
    ["archive before/after, recommendation with and without pruning"],
)
P(
    "C07",
    "The Pareto front is exactly the set of non-dominated told points",
    "After any history of multi-objective tells, the reported Pareto front holds exactly the candidates that are non-dominated among those told "
    "(up to duplicates of the same loss vector, and to points over the upper bounds, which never discard a point within the bounds), independently of the order in which they were told. "
    "A requested subset has the requested size at most, contains only front members and no repetition, whatever the selection method.",
    ["histories", "inputs"],
    "every sequence of loss vectors over a small grid (with ties, duplicates, points beyond the reference bounds, and a reference given or "
    "inferred automatically) up to the length bound, in 2 and 3 objectives",
    "Tests use a few random clouds; the lazily filtered front depends on the order of insertions, bounds and ties.",
    [OPT + "multiobjective/core.py", OPT + "base.py"],
    [("HypervolumePareto", OPT + "multiobjective/core.py:HypervolumePareto")],
    [("_pareto / _pareto_needs_filtering", "lazily filtered front", OPT + "multiobjective/core.py")],
    ["pareto_front(), losses of the returned candidates"],
)
P(
    "C08",
    "Hypervolume equals the measure of the dominated region",
    "For every finite set of points and every reference point, the computed hypervolume equals the Lebesgue measure of the union of the boxes "
    "between each point and the reference, whatever duplicates, ties, dominated points, points lying on the reference or ordering (no point being beyond the reference). "
    "The scalar loss given for a told point reflects it: the negative of the hypervolume of all the points told within the upper bounds when the point extends it, "
    "never less than that otherwise, and the positive excess for a point over the upper bounds, which never counts in the volume.",
    ["inputs", "histories"],
    "every multiset/sequence of points on a small integer grid in 1 to 4 dimensions up to the size bound, including points on and beyond the reference",
    "Tests compare a handful of point sets to constants; degenerate configurations (ties in the sort order, duplicates) are where the recursive algorithm goes wrong.",
    [OPT + "multiobjective/hypervolume.py", OPT + "multiobjective/core.py"],
    [("HypervolumeIndicator.compute", OPT + "multiobjective/hypervolume.py"), ("VectorLinkedList", OPT + "multiobjective/hypervolume.py")],
    [],
    ["HypervolumeIndicator.compute, loss seen by single-objective optimizers"],
)
P(
    "C09",
    "Non-dominated ranking sorts every population into true Pareto layers",
    "Ranking a population puts in the first front exactly the candidates no other candidate dominates, and in each further front exactly those only dominated by candidates of previous fronts; "
    "every candidate is ranked exactly once when no selection is requested. Selecting n candidates keeps n of them (all when fewer), never prefers a "
    "candidate over another of a strictly better front, and within the cut front keeps the most isolated ones.",
    ["inputs"],
    "every population of loss vectors over a small grid (ties and duplicates included) up to the size bound, in 2 and 3 objectives, with every number of selected candidates and both density estimators",
    "Tests use three hand-made populations with two objectives.",
    [OPT + "multiobjective/nsga2.py", OPT + "es.py"],
    [("FastNonDominatedRanking", OPT + "multiobjective/nsga2.py"), ("rank", OPT + "multiobjective/nsga2.py:rank"), ("CrowdingDistance", OPT + "multiobjective/nsga2.py")],
    [],
    ["rank of each candidate"],
)
P(
    "C10",
    "Population optimizers survive any order of asks and tells",
    "Evolutionary optimizers (differential evolution, evolution strategies, particle swarm and relatives) accept any interleaving of asks with "
    "tells of pending, foreign or repeated candidates and never get stuck or fail. A result only updates the individual its candidate comes from. Their population never exceeds its nominal size, an individual is "
    "replaced only by one that is at least as good according to the algorithm's rule, and a told best candidate is never lost from an elitist population.",
    ["histories", "schedules"],
    "every sequence of ask/tell operations (which pending candidate is told next, with which of a few losses, or a foreign one) up to the depth bound, for every population family and small population sizes",
    "Tests tell candidates in ask order (or one shuffled order); the queue of asked/told individuals misbehaves only for specific orders.",
    [OPT + "utils.py", OPT + "differentialevolution.py", OPT + "es.py", OPT + "optimizerlib.py"],
    [("UidQueue", OPT + "utils.py:UidQueue"), ("DE", OPT + "differentialevolution.py:_DE"), ("ES", OPT + "es.py:_EvolutionStrategy"), ("PSO", OPT + "optimizerlib.py:_PSO")],
    [("population", "uid -> individual", OPT + "differentialevolution.py"), ("_uid_queue", "rotation of the individuals", OPT + "utils.py")],
    ["population, candidates asked, exceptions"],
)
P(
    "C11",
    "Dumping and loading an optimizer at any point changes nothing",
    "If an optimizer is dumped and loaded at any point of a run, including with candidates pending and suggestions queued, the loaded optimizer has the same counters, "
    "archive, bests, front and recommendation, and then proposes the same points and recommendation as the original for the same future losses. "
    "Using the loaded optimizer never affects the original one, and vice versa. "
    "A dump which fails or is interrupted leaves the previous dump readable.",
    ["crash_points", "histories"],
    "every dump point of every bounded ask/tell history (in and out of order tells), for every registered optimizer that can be pickled, with scalar and multi-objective losses",
    "A test dumps each optimizer once after a fixed number of steps and only checks that loading works / the recommendation is the same.",
    [OPT + "base.py", OPT + "recaster.py", OPT + "callbacks.py"],
    [("dump/load", OPT + "base.py"), ("replay of tells when unpickling", OPT + "recaster.py:SequentialRecastOptimizer.__setstate__"), ("OptimizerDump", OPT + "callbacks.py")],
    [],
    ["future asks, recommendation and counters of the loaded optimizer"],
)
P(
    "C12",
    "Same seed and same history give the same optimization",
    "Two optimizers created alike, whose parametrizations are seeded alike and which receive the same sequence of asks and tells, ask identical points and give identical recommendations at every step, "
    "whatever happens outside (other optimizers running, the global random state, candidate identifiers). "
    "Seeding one optimizer determines it completely.",
    ["histories", "configurations"],
    "every registered optimizer, several parametrizations, every bounded pattern of interleaving of asks and tells, with the outside world (global random state, identifiers, a second optimizer) perturbed between the two runs",
    "The recorded recommendations of the tests pin one dimension and one history, with the global state seeded by the test runner, so dependence on the outside is invisible.",
    [OPT + "base.py", OPT + "optimizerlib.py", OPT + "recastlib.py", PAR + "core.py"],
    [("random_state property", PAR + "core.py:Parameter.random_state"), ("_rng", OPT + "base.py:Optimizer._rng")],
    [],
    ["asked points, recommendation"],
)
P(
    "C13",
    "Every asked or recommended point lies in the search domain",
    "Whatever the losses told, every candidate asked by an optimizer and every recommendation has a value valid for the parametrization: bounded variables are finite and within bounds, "
    "integer variables are integers, choices are among the listed options, logarithmic variables are positive, and the structure matches the parametrization.",
    ["histories", "configurations"],
    "every registered optimizer, over parametrizations that mix bounds, integers, logs and choices, for every bounded history of losses from an alphabet with ties, huge, infinite and NaN values",
    "Tests run optimizers on one or two unbounded or loosely bounded domains with a benign function.",
    [OPT + "optimizerlib.py", OPT + "base.py", PAR + "data.py", PAR + "_datalayers.py", PAR + "choice.py"],
    [("bound layers", PAR + "_datalayers.py"), ("spawn from standardized data", PAR + "data.py")],
    [],
    ["candidate.value, recommendation.value"],
)
P(
    "C14",
    "Recast optimizers follow the hand-over protocol under every thread schedule",
    "An optimizer that wraps a library routine in a background thread receives, for each point its routine requests, exactly the loss told for that point, and asks exactly the points "
    "the routine requests, in order, whatever the relative speed of both threads. When the routine ends, fails or is abandoned at any point, asks go on with valid points or report the failure, "
    "nothing blocks forever, and the background thread terminates.",
    ["schedules", "fault_sequences"],
    "every interleaving of the two threads at their queue and liveness operations, for routines that return, raise or loop, and for every point where the user stops, keeps asking or deletes the optimizer",
    "Tests run with whatever timing the OS gives: the windows (end of the routine between the liveness test and the blocking read, stop before the first ask ...) are hit by luck only.",
    [OPT + "recaster.py", OPT + "recastlib.py"],
    [("_MessagingThread", OPT + "recaster.py"), ("SequentialRecastOptimizer", OPT + "recaster.py")],
    [("messages_ask / messages_tell", "queues between the threads", OPT + "recaster.py")],
    ["losses received by the routine, points asked, termination"],
)
P(
    "C15",
    "Batch recast optimizers return each loss to the right point of the batch",
    "When points are requested in batches, every point of a batch is asked exactly once, and when the last one is told the routine receives the losses in the order of its points, "
    "whatever the order of asks and tells. Asking beyond an unfinished batch is refused without side effect, and the next batch starts only once the previous one is complete.",
    ["histories", "schedules"],
    "every interleaving of asks and tells over consecutive batches of every size up to the bound, including refused asks and the end of the routine",
    "Tests tell one batch in one order.",
    [OPT + "recaster.py"],
    [("BatchRecastOptimizer", OPT + "recaster.py")],
    [("indices / _batch_losses", "position of each pending point, losses received so far", OPT + "recaster.py")],
    ["array of losses received by the routine"],
)
P(
    "C16",
    "Composite optimizers route every ask and tell to the right member",
    "Chaining asks its members one after the other, each for its share of the budget, and informs each of everything told up to its turn; a portfolio shares the asks among its members as announced and tells "
    "each loss to its members; splitting gives each member its own consecutive variables, assembles their proposals into one point, and tells each of them its own part with the loss; "
    "rescaled or randomly cast variants only transform the points. No evaluation is lost, attributed to another candidate, or sent to a member twice.",
    ["histories", "configurations"],
    "every bounded history of asks and tells (in any order), for all budgets, numbers of workers and splits within the bounds, with recording members",
    "Tests only look at the final recommendation of regular runs.",
    [OPT + "optimizerlib.py"],
    [("_Chain", OPT + "optimizerlib.py:_Chain"), ("Portfolio", OPT + "optimizerlib.py:Portfolio"), ("SplitOptimizer", OPT + "optimizerlib.py:SplitOptimizer"), ("_Rescaled", OPT + "optimizerlib.py:_Rescaled")],
    [],
    ["calls received by the members"],
)
P(
    "C17",
    "Abnormal losses never break an optimizer nor win",
    "For every history of losses that may contain NaN, infinite, huge, negative-huge or tied values, every optimizer keeps proposing candidates and can recommend one. "
    "A candidate whose only losses were NaN or infinite is never recommended over one with a finite loss (for optimizers that recommend the best told point).",
    ["histories", "inputs"],
    "every registered optimizer and every sequence over an alphabet of normal and abnormal losses up to the bound",
    "Tests tell infinity once to each optimizer.",
    [OPT + "base.py", OPT + "optimizerlib.py"],
    [("clipping of losses", OPT + "base.py:Optimizer.tell")],
    [],
    ["exceptions, recommendation"],
)
P(
    "C18",
    "Cheap constraints and tabu lists are honoured",
    "A candidate that is asked satisfies the registered constraints whenever the bounded number of attempts finds a point that does, and one that violates them is penalized and never becomes the tracked best. "
    "Attempts made internally to satisfy constraints do not count as asks. With a tabu length, a value asked among the last ones is not proposed again while another one can be found.",
    ["histories", "configurations"],
    "every bounded history of asks and tells over small discrete domains, with every subset of feasible points, penalization modes and tabu lengths",
    "Tests use one easy constraint on continuous domains.",
    [OPT + "base.py", OPT + "utils.py", PAR + "core.py"],
    [("ask with constraints", OPT + "base.py:Optimizer.ask"), ("satisfies_constraints", PAR + "core.py:Parameter.satisfies_constraints"), ("penalty", OPT + "utils.py:ConstraintManager")],
    [],
    ["asked candidates, num_ask, current bests"],
)
P(
    "C19",
    "Standardized coordinates and values convert back and forth exactly",
    "For every parametrization and every valid value, reading a candidate's standardized coordinates and writing them into a fresh instance gives back the same value; "
    "a fresh instance has zero coordinates, coordinates are concatenated in a fixed order consistent with the dimension, and writing any real coordinates gives a valid value. "
    "Writing coordinates relative to another reference instance is inverse to reading them relative to it.",
    ["inputs", "configurations"],
    "all parametrizations generated by composition (scalars, arrays, logs, bounded by every method, integer casting, choices, transitions, tuples, dictionaries, instrumentations) to a nesting bound, on a grid of values and coordinates including bounds",
    "Tests check a list of examples with one random draw each.",
    [PAR + "core.py", PAR + "data.py", PAR + "container.py", PAR + "_datalayers.py", PAR + "transforms.py", PAR + "choice.py"],
    [("get/set_standardized_data", PAR + "core.py:Parameter"), ("layers", PAR + "_datalayers.py"), ("transforms", PAR + "transforms.py")],
    [],
    ["value, get_standardized_data"],
)
P(
    "C20",
    "Bounds, integer casting and scaling hold for every transform and value",
    "For every bounding method and every bounds (one-sided or two-sided, scalar or per-coordinate), every internal coordinate maps to a value within the bounds, monotonically where the method is monotone, "
    "and the inverse map recovers the coordinate of any value strictly inside. Integer variables reach all the integers in their range including both ends, and out-of-range values are refused on assignment.",
    ["inputs", "configurations"],
    "all bounding methods x bounds x shapes x sigmas x exponents on a dense grid of coordinates including extremes, infinite bounds and the bounds themselves, and all integers of small ranges",
    "Tests check a few points per transform.",
    [PAR + "transforms.py", PAR + "_datalayers.py", PAR + "data.py"],
    [("transforms", PAR + "transforms.py"), ("Bound/IntegerCasting/Modulo layers", PAR + "_datalayers.py")],
    [],
    ["forward/backward maps, values"],
)
P(
    "C21",
    "Children and copies of a parameter are independent of their parent",
    "Spawning a child or copying a parameter yields an equal value, and no later operation on the child (setting a value, mutating, recombining, sampling, changing nested parameters or metadata) changes the "
    "parent, its siblings or the reference, and vice versa. A frozen parameter refuses any modification of itself or of its nested parameters, while its children remain modifiable.",
    ["histories", "configurations"],
    "every sequence of spawn/copy/set/mutate/recombine/sample/freeze operations up to the bound over a family tree, for every composed parametrization within the bound",
    "Tests mutate once and compare; sharing of nested arrays or sub-parameters shows only for specific nestings and sequences.",
    [PAR + "core.py", PAR + "container.py", PAR + "data.py", PAR + "choice.py"],
    [("spawn_child/copy", PAR + "core.py:Parameter"), ("freeze", PAR + "core.py:Parameter.freeze")],
    [],
    ["values of all family members after each operation"],
)
P(
    "C22",
    "Choices select listed options, and sampling is repeatable per candidate",
    "A choice or transition choice always holds one of its options (the parametrized option's own current value), setting a value selects the matching option, repeated options are drawn independently, and the coordinates fully "
    "decide a deterministic choice. Once a candidate's value has been read it does not change until it is modified, and unordered choices follow their weights.",
    ["inputs", "configurations", "histories"],
    "all choices with up to the bounded number of options, repetitions and nestings, all resolutions of the random draws through a controlled generator, and all sequences of set/read/respawn",
    "Tests draw a few random values.",
    [PAR + "choice.py", PAR + "_datalayers.py", "nevergrad/parametrization/discretization.py"],
    [("Choice/TransitionChoice", PAR + "choice.py"), ("SoftmaxSampling", PAR + "_datalayers.py")],
    [],
    ["value, indices, random draws consumed"],
)
P(
    "C23",
    "Arguments are mapped faithfully from containers to the objective",
    "Tuples, dictionaries and instrumentations of any nesting pass to the objective exactly the positional and keyword structure they were built with, each leaf holding its own value, and setting a whole value sets each leaf. "
    "Equal values hash equally and different ones differently, the order of keyword declaration does not matter for coordinates, and the optimizer calls the function with the candidate's args and kwargs.",
    ["inputs", "configurations"],
    "all nestings of containers up to the depth bound, all leaf values of a small alphabet, all orders of declaration and of assignment",
    "Tests use a few fixed structures.",
    [PAR + "container.py", PAR + "core.py"],
    [("Container/Instrumentation", PAR + "container.py"), ("value hash", PAR + "core.py:Parameter.get_value_hash")],
    [],
    ["args, kwargs, value, get_value_hash"],
)
P(
    "C24",
    "Mutations and recombinations stay in the domain and preserve what they announce",
    "Every mutation and crossover yields valid values whatever the random draws: crossovers take each coordinate from one of the parents, translations and jumps only rearrange entries, and recombining identical parents changes nothing. "
    "Discrete mutations modify at least one variable and really change the modified ones. Lineage information follows: spawning increments the generation, records the parent and keeps the lineage, "
    "sampling starts a new lineage, while recombining, mutating and setting values leave it.",
    ["inputs", "histories"],
    "all resolutions of the random draws over small arrays (all sizes, axes, numbers of parents up to the bound)",
    "Tests draw a few random arrays.",
    [PAR + "mutation.py", PAR + "core.py", PAR + "data.py", "nevergrad/optimization/mutations.py"],
    [("Crossover, Translation, Jumping, Tuned...", PAR + "mutation.py"), ("mutations of the one-plus-one family", OPT + "mutations.py")],
    [],
    ["values and uids of the results"],
)
P(
    "C25",
    "Splitting a benchmark in chunks runs every experiment exactly once",
    "For every number of experiments, repetitions, workers and every splitting (including splits of splits), the chunks together contain each experiment exactly once, in a reproducible order with the same seeds as the unsplit run. "
    "A chunk interrupted at any point and resumed produces every result exactly once, and results saved incrementally are all kept, even when a later save fails.",
    ["configurations", "crash_points"],
    "all sizes, splits, nested splits and repetitions up to the bound, every interruption point of the computation of a chunk",
    "Tests check one split and one interruption.",
    ["nevergrad/benchmark/core.py", "nevergrad/benchmark/utils.py"],
    [("BenchmarkChunk", "nevergrad/benchmark/core.py:BenchmarkChunk"), ("Moduler", "nevergrad/benchmark/core.py:Moduler")],
    [],
    ["experiments run, summaries returned"],
)
P(
    "C26",
    "The simulated executor releases jobs in the order of their virtual completion",
    "In the simulated asynchronous executor exactly one unread job is done at any time in steady mode, jobs are released by increasing completion time and submission order on ties, virtual time never goes backwards and equals "
    "the completion time of the last released job; in batch mode all jobs are done. Every job's function is evaluated exactly once, and reading a job that is not done is refused; a job can be read again once it was released.",
    ["schedules", "histories"],
    "every interleaving of submits, polls and reads up to the bound, with every assignment of durations (ties and zeros included)",
    "Tests check two fixed sequences of durations.",
    ["nevergrad/benchmark/execution.py"],
    [("MockedTimedExecutor", "nevergrad/benchmark/execution.py")],
    [("_steady_priority_queue", "jobs by release time", "nevergrad/benchmark/execution.py")],
    ["done(), result(), executor.time"],
)
P(
    "C27",
    "Benchmark experiments are reproducible and report the true losses",
    "Running the same experiment twice with the same seed gives the same summary apart from timing, whatever ran before in the process, and different experiments have distinct descriptions. The reported loss is the noise-free evaluation of the "
    "recommendation, the reported budget and workers are those of the run, and a failing optimizer is reported as a failure rather than as a result.",
    ["histories", "configurations", "fault_sequences"],
    "every small experiment plan (function, optimizer, budget, workers, batch mode) x every preceding history of other experiments x every point at which the optimizer or function fails",
    "Tests run a couple of experiments with fixed seeds.",
    ["nevergrad/benchmark/xpbase.py", "nevergrad/functions/base.py", "nevergrad/functions/functionlib.py"],
    [("Experiment.run", "nevergrad/benchmark/xpbase.py"), ("seed management", "nevergrad/benchmark/xpbase.py"), ("evaluation_function", "nevergrad/functions/base.py")],
    [],
    ["summary dictionaries"],
)
P(
    "C28",
    "Test functions are deterministic transforms of their core function",
    "An artificial function evaluates its core function on the translated, rotated, useful part of the input: noise-free evaluation is a pure function of the input that reaches the core function's minimum at its announced optimum, "
    "noise has the announced form, copies behave alike but share no state, and useless or repeated variables do not influence the value.",
    ["inputs", "configurations"],
    "all combinations of blocks, useless variables, rotation, translation, hashing, noise and splits up to the bound on a grid of inputs and seeds",
    "Tests check recorded values for a few configurations.",
    ["nevergrad/functions/functionlib.py", "nevergrad/functions/base.py", "nevergrad/functions/utils.py"],
    [("ArtificialFunction", "nevergrad/functions/functionlib.py"), ("ExperimentFunction.copy", "nevergrad/functions/base.py"), ("transforms", "nevergrad/functions/utils.py")],
    [],
    ["function values"],
)
P(
    "C29",
    "Logged histories are complete and readable back",
    "The parameter logger writes exactly one readable record per tell with the candidate's identity, generation, loss and values, in order, appends across runs, and loads back exactly what was logged; a crash while writing the last record loses at most that record, and loading still returns the others and the records of later runs. "
    "Progress and printing callbacks report once per announced period and never alter the optimization.",
    ["histories", "crash_points"],
    "all bounded ask/tell histories over composed parametrizations, every truncation point of the log file, every printing period",
    "Tests log one run and load it back.",
    [OPT + "callbacks.py"],
    [("ParametersLogger", OPT + "callbacks.py:ParametersLogger"), ("OptimizerDump", OPT + "callbacks.py:OptimizerDump"), ("OptimizationPrinter", OPT + "callbacks.py")],
    [],
    ["log file, loaded records, printed lines"],
)
P(
    "C30",
    "Low-discrepancy samplers cover the cube as announced",
    "Quasi-random samplers give points in the unit cube; latin hypercube sampling puts exactly one point in each of the budget's slices of every axis; Halton and Hammersley sequences match their definition, scrambled or not being permutations of digits; "
    "resetting a sampler reproduces its sequence. One-shot optimizers based on them stay within these guarantees for every budget and dimension.",
    ["inputs", "configurations"],
    "all budgets and dimensions up to the bound, all samplers, all reset points, all resolutions of the scrambling permutations for small bases",
    "Tests compare a few recorded points.",
    [OPT + "sequences.py", OPT + "oneshot.py"],
    [("samplers", OPT + "sequences.py"), ("one-shot optimizers", OPT + "oneshot.py")],
    [],
    ["sampled points"],
)
P(
    "C31",
    "Code templates are instantiated faithfully and never touch the original",
    "Instantiating a folder replaces every placeholder by the given value and nothing else, removes the comment marks only on annotated lines, refuses missing or unknown values, and leaves the original folder byte for byte unchanged whatever happens (a command which writes through the symbolic links of the copy, as documented, is the only way to modify it). "
    "The temporary copy is deleted at the end, and the output of the command decides the loss.",
    ["inputs", "fault_sequences"],
    "all small templates built from text, placeholders (repeated, malformed, commented) and value assignments, every operation on the temporary copy, every failure point",
    "Tests use one example folder.",
    [PAR + "instantiate.py", OPT + "../functions/base.py"],
    [("FolderInstantiator/FileTextFunction", PAR + "instantiate.py"), ("Placeholder", PAR + "instantiate.py")],
    [],
    ["files of the original and of the copy"],
)
P(
    "C32",
    "Basic containers obey their abstract specification",
    "The ordered set, the uid queue, the array-keyed archive, the registry and the iteration helpers behave as their abstract counterparts (insertion-ordered set, rotation queue, dictionary on array content, name-to-object map, grouping and interleaving) after every sequence of operations.",
    ["histories"],
    "every operation sequence up to the depth bound, exploring all reachable states of the real object up to canonical equality",
    "Tests use one or two sequences per container.",
    ["nevergrad/common/tools.py", "nevergrad/common/decorators.py", OPT + "utils.py"],
    [("OrderedSet", "nevergrad/common/tools.py"), ("UidQueue, Archive", OPT + "utils.py"), ("Registry", "nevergrad/common/decorators.py")],
    [],
    ["results of the public methods"],
)

if __name__ == "__main__":
    path = Path(__file__).resolve().parent.parent / "properties.jsonl"
    path.write_text("".join(json.dumps(p) + "\n" for p in PROPS))
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
    try:
        import jsonschema

        schema = json.loads(Path("/root/.vp/PROPERTIES.schema.json").read_text())
        for p in PROPS:
            jsonschema.validate(p, schema)
    except ImportError:
        pass
    print(len(PROPS), "properties")
