"""Per property: technique, level and note of the manifest"""
LEVELS = {
    "C01": (
        "systematic schedule exploration of the real minimize loop",
        "model_checking",
        "Exhaustive over completion schedules (which poll each job completes at) for budgets up to 7-12 and up to 8 workers; "
        "bounded refusals per job; trusts the virtual clock and that done() stays true.",
    ),
}
NOT_APPLICABLE = {}
MC = "model_checking"
LEVELS["C02"] = ("exhaustive fault injection in the real minimize loop, with resumption", MC,
    "Every single (and pairs of) fault position in polls, results, sleeps, constraints and callbacks, x completion schedules, then resumption (directly or after dump/load); budgets 3-6.")
LEVELS["C03"] = ("exhaustive exploration of loss/time histories against reference stopping rules", MC,
    "All loss sequences over small alphabets and schedules up to the depth; virtual clock.")
LEVELS["C04"] = ("exhaustive exploration of operation sequences against a reference ledger", MC,
    "All sequences of ask/tell/suggest/re-tell/foreign tell up to depth 5-7 on several optimizers; representative optimizers only.")
LEVELS["C05"] = ("exhaustive exploration of tell histories against a recomputation from the full history", MC,
    "All histories of (point, loss) up to depth 4-7 over up to 3-5 points and 2-4 losses, including NaN/inf/huge.")
LEVELS["C06"] = ("exhaustive enumeration of archives and tell histories against brute-force quantiles", MC,
    "All archives of 4-6 records over 5-7 evaluation profiles, all (min,len) pairs up to 25x80, all tell histories up to depth 5-10.")
LEVELS["C07"] = ("exhaustive exploration of multi-objective tell histories against the brute-force front", MC,
    "All histories over grids (2-3 objectives) up to depth 3-5, all orders of sets of 7 points.")
LEVELS["C08"] = ("exhaustive enumeration of point sets against cell decomposition", MC,
    "All sequences/multisets of grid points and all relative orders of up to 5 points in up to 4 objectives; all loss histories up to depth 5.")
LEVELS["C09"] = ("exhaustive enumeration of populations against brute-force Pareto layers", MC,
    "All populations of up to 4-6 candidates on grids and all relative orders, for every number of selected candidates.")
LEVELS["C10"] = ("exhaustive exploration of ask/tell interleavings on small populations", MC,
    "All sequences of ask / tell any pending / foreign tell / re-tell with 1-3 losses up to depth 5-7 for DE, PSO, ES; depth 3-4 for 18 others.")
LEVELS["C12"] = ("pairwise exploration of identical histories with everything else perturbed", MC,
    "All operation sequences up to depth 3-4 for representative optimizers, one full history for every registered optimizer and parametrization kind; known exceptions from third-party libraries are listed.")
LEVELS["C14"] = ("controlled scheduling of the real threads, with a preemption bound", MC,
    "All interleavings at queue/liveness operations with up to 2-3 preemptions; routines with up to 3 points; 12 wrapped libraries with 1-2 preemptions.")
LEVELS["C15"] = ("exhaustive exploration of ask/tell orders over batches, with controlled scheduling of the real thread", MC,
    "All interleavings of asks, refused asks, tells and foreign tells over 1-2 batches of up to 3-4 points, with 0-2 preemptions; real pymoo wrapper with the library's algorithm replaced.")
LEVELS["C11"] = ("exhaustive enumeration of dump points over ask/tell histories, compared with the undumped run", MC,
    "Every dump point of all histories up to depth 4-6 for representative optimizers, one history with every dump point for every picklable optimizer, every write failure of a dump.")
LEVELS["C25"] = ("exhaustive enumeration of splits and interruption points on the real chunks", MC,
    "All plans of up to 4-7 experiments x repetitions x caps x two levels of splits; all interruption points (1-3 interruptions) of small chunks; all histories of 3-4 saves.")
LEVELS["C26"] = ("exhaustive exploration of operation sequences against a discrete-event reference", MC,
    "All interleavings of submit/done/result up to depth 5-8 with all durations of a small alphabet; all durations through minimize up to budget 5-10.")
LEVELS["C32"] = ("explicit-state exploration of operation sequences against abstract models", MC,
    "All sequences up to depth 3-9 over 2-4 keys; all small inputs of the helpers.")
LEVELS["C19"] = ("exhaustive enumeration of parametrizations and coordinates through the real conversions", MC,
    "67 leaves and their compositions (pairs, triples, six kinds of containers; all pairs in the thorough tier) x a grid of coordinates and values.")
LEVELS["C20"] = ("exhaustive enumeration of bounds, methods and coordinates through the real layers", MC,
    "All methods x bounds x shapes x a dense grid of coordinates with extremes; all integers of small ranges; all operations up to depth 2-3.")
LEVELS["C21"] = ("exhaustive exploration of operation sequences over a family of real instances, comparing snapshots", MC,
    "All sequences of 12 operations on all members up to depth 2-3, for 67 leaves and compositions.")
LEVELS["C22"] = ("exhaustive exploration of operation sequences and random draws through a controlled generator", MC,
    "All sequences up to depth 2-3 with deviating draws (2 to 5), all weights of a grid with infinities, all values and repetitions up to 2-3.")
LEVELS["C23"] = ("exhaustive enumeration of structures, orders of declaration and assignment, and pairs of values, against an independent description of the structure", MC,
    "all nestings up to the width and depth bounds, all orders up to 5 keywords, all pairs of values of the catalogue; the objective is called through minimize by a few optimizers")
LEVELS["C24"] = ("exhaustive resolution of the random draws of each operator on small arrays", MC,
    "all shapes, axes and sizes of a list, all integers and options drawn, a grid of real draws (bounded number of deviations), all histories of lineage operations up to depth 2-3")
LEVELS["C17"] = ("exhaustive exploration of histories of losses on the real optimizers", MC,
    "Every registered optimizer with a list of patterns of abnormal losses (12 and 48 asks, 1 and 3 workers); all sequences of losses over an alphabet with NaN and infinities up to depth 2-5 for 24 families, "
    "all forms of giving a loss, all bounded histories of vectors of losses.")
LEVELS["C18"] = ("exhaustive exploration of histories and feasible sets on the real optimizers, with a constraint which records what the library considers", MC,
    "All subsets of small domains (or 6 of them) x forms and times of registration x all sequences of 3-4 operations for 6 families, a fixed history of every registered optimizer on three kinds of feasible sets, "
    "all bounded sequences of losses with violations, and all sequences of 6-8 asks and tells with tabu lists of length 1-6.")
LEVELS["C13"] = ("exhaustive exploration of histories of losses on the real optimizers, against independent descriptions of the domains", MC,
    "Every registered optimizer on 4 of 16 domains (7 asks; thorough: all domains, 14 asks, 5 patterns of losses, 1 and 3 workers), all sequences of asks, tells, losses and a suggestion up to depth 5-6 for 22 families, "
    "histories of 40 asks for these.")
LEVELS["C30"] = ("exhaustive enumeration of samplers, dimensions, budgets, permutations and operations, against exact definitions", MC,
    "All budgets up to 40 (thorough: 130) in dimensions 1 to 9 (40) for all samplers, all random permutations up to 4 points, all sequences of draws and resets of two samplers up to depth 4-5, "
    "all first primes up to 1200 (3000), all registered quasi-random searches for budgets up to 8 (40), in dimension 1 to 5, on three kinds of variables.")
LEVELS["C28"] = ("exhaustive enumeration of options, seeds, points and operations, with a core function which records the blocks it receives", MC,
    "All combinations of options for up to 7 (9) variables, all draws of the noise on a grid, all sequences of operations on a function and its copies up to depth 4-5, all core functions on grids of "
    "12 (18) values per axis in dimension 1 to 3 (4), all discrete points up to 6 (8) variables.")
LEVELS["C29"] = ("exhaustive exploration of histories of tells, loggers and truncations, and comparison of whole runs with and without callbacks", MC,
    "All sequences of asks, tells (asked or not, 4 losses), changes of logger up to depth 3-4 (thorough: 5) on 7 optimizers and parametrizations; all truncations in the last record with 3 continuations; all jumps of "
    "time up to 3 (4) within 9 (11) tells for 4 intervals; about 350 registered optimizers with and without callbacks; all sequences of 6 (7) losses among 3 for the stopping criteria.")
LEVELS["C31"] = ("exhaustive enumeration of templates, folders, destinations, failing operations and commands, against an independent parser", MC,
    "All texts of up to 4 (thorough: 5) pieces among 11, all annotated lines of a grid, all files of up to 2 (3) lines among 7 with 3 line terminations, all folders among 7 with 6 spellings of the path, "
    "9 destinations, each of the first 30 input/output operations failing, 15 behaviours of the command.")
LEVELS["C16"] = ("exhaustive enumeration of ask/tell histories of composites over recording members", MC,
    "All histories of depth 4-8 (deviations 3-5) of asks, tells in any order and foreign tells, for 80 chainings, 41 portfolios (parallel, sequential, refusing members; with and without warmup), 19 splits, rescaled optimizers; each announced portfolio of the registry.")
LEVELS["C27"] = ("exhaustive enumeration of histories, failing calls and noise draws on real experiments", MC,
    "12 experiments after every history of up to 2 of 19 other activities (quick: at most 2 deviations), about 300 registered optimizers x 2 functions x 2 numbers of workers, every failing call of the function or the optimizer, "
    "every noise and duration sequence of up to 2 (4) deviations in 72 settings, all sequences of 5 (6) durations on 1-3 workers, pairs of plans with up to 3 (5) choices differing from the default.")
