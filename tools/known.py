"""Source of known_findings.json: python3 tools/known.py writes it."""
import json
from pathlib import Path

OUT = []


def fixed(prop, commit, what):
    OUT.append(dict(property=prop, status="fixed", commit=commit, what=what, entry=f"fixed: property={prop} {commit} {what}"))


def opened(prop, key, what):
    OUT.append(dict(property=prop, status="open", key=key, what=what))


fixed("C05", "ceb0f38", "DifferentialEvolution(recommendation='mean') raised KeyError when recommending")
fixed("C09", "1f0cb28", "NSGA-II ranking used the number of better objectives instead of Pareto dominance (wrong with 3 objectives)")
fixed("C07", "8b2a3d7", "non-dominated points lying on the upper bounds were missing from the front (and got an infinite loss)")
fixed("C07", "5ebf50b", "subsets of the front had repetitions, and failed for container parametrizations")
fixed("C08", "d529c3b", "points over the upper bounds were part of the hypervolume behind the loss")
fixed("C10", "064e946", "discarded uids remained in the queue of DE/PSO and were asked again: KeyError")
fixed("C10", "3da4041", "DE lost an individual (and could fail) when an individual of its population was told again")
fixed("C10", "3a96990", "ES without offsprings had an unbounded population, and failed, when told foreign candidates")
fixed("C12", "09ffd90", "lognormal mutation, smoothing, Voronoi crossover and Rescaled drew from np.random instead of the seeded generator")
fixed("C12", "3cf0502", "CmaFmin2 and NLOPT_G* ignored the seed of the optimizer")
fixed("C12", "39d903e", "NLOPT_LN_PRAXIS ignored the seed of the optimizer (nlopt's own generator was not seeded)")
fixed("C12", "53a3240", "a CMA optimizer in dimension 1 switched all other instances of its class to fcmaes (and broke the live ones)")
fixed("C12", "c34b537", "neural and random forest meta-models ignored the seed of the optimizer")
fixed("C12", "eac13d1", "AnisotropicAdaptiveDiscreteOnePlusOne drew its velocity at creation, before it can be seeded through the optimizer")
fixed("C10", "0dc2e7d", "VoronoiDE raised ValueError when its crossover was used on a parametrization which is not an array")
fixed("C18", "9a2678c", "optimizers with a tabu list raised TypeError on tuples, dictionaries and instrumentations")
fixed("C18", "4a16d4b", "the tabu list was ignored for the descendants of about 30 candidates, because failures accumulated along the lineage")
fixed("C18", "2263f52", "copies of a parametrization shared the tabu list, and an assertion could fail")
fixed("C11", "33149d0", "unpickled recast optimizers did not replay the original run (guess, num_ask, random restarts, posted losses, pending flag)")
fixed("C11", "427f872", "a failed dump destroyed the previous dump file")
fixed("C32", "4d1afc5", "OrderedSet.discard and in-place set operations raised on missing elements")
fixed("C32", "bdb8a5b", "information about an unregistered object was given to the next one with the same name")
fixed("C32", "5587df2", "set_env did not restore the environment if a variable was deleted meanwhile")
fixed("C14", "fbfc026", "a recast optimizer reloaded after the end of its routine failed at the next tell")
fixed("C14", "822876b", "an ask after the end of the background thread could block forever; a program with a live recast optimizer never exited")
fixed("C19", "596482d", "setting the only option of a choice gave infinite coordinates")
fixed("C20", "6b2f11b", "an integer parameter after a decreasing operation (-p, 1/p, 0.5**p) was cast within exchanged bounds")
fixed("C20", "7c3c7ee", "an integer parameter with bounds beyond the int64 range was cast to the lowest integer")
fixed("C20", "f6134a3", "bounds per column were refused for arrays with several dimensions")
fixed("C20", "2523c63", "a value read from a candidate at the bound of a log-distributed parameter was refused (rounding)")
fixed("C21", "f816fc5", "a frozen parameter accepted integer castings, bounds, standard deviations and items")
fixed("C21", "0af6e49", "the function information of a copy was shared with the original")
fixed("C22", "6666d7b", "reading a randomly rounded value modified the coordinates of the candidate")
fixed("C22", "c9c623b", "a constant array option was selected by values of other shapes")
fixed("C22", "0983f63", "mutating an unordered transition choice with parametrized options failed")
fixed("C22", "1af498d", "a choice with repetitions silently kept the last of several values for the same option")
fixed("C23", "91abbc1", "coordinates could not be set any more in a container whose nested container was completed after use")
fixed("C24", "b2d5d2a", "negative axes replaced the whole array, Jumping failed for small arrays or sizes, LocalGaussian for full axes, Crossover for non-integer maximum sizes")
fixed("C24", "ecea573", "Translation and Jumping left a stale value in integer arrays which had been read")
fixed("C24", "c229eb5", "VoronoiDE failed on one variable")
fixed("C17", "e6b96d7", "losses in lists or arrays of one element broke optimizers, and -inf or huge negative losses were not truncated")
fixed("C17", "9d963af", "CmaFmin2 failed at its end on unbounded domains")
fixed("C18", "7337a11", "optimizers with a tabu list never recorded the losses: their recommendation was always the initial point")
fixed("C17", "1481ba0", "FCMA recommended a point with a nan loss when the last population was not completed")
fixed("C18", "b7d6a61", "OnePlusOne ignored the tabu length specified for the parametrization")
fixed("C18", "7dcfe0f", "violations were not penalized without budget, and the losses of candidates compared by optimizers did not include the penalties")
fixed("C18", "0d96538", "the constraint solver returned a resampled or another point than the feasible one it found, and lost the identity of the candidate")
fixed("C18", "2ad37a2", "rejected candidates were told with infinite losses (NaN proposals, errors), suggestions and returned candidates were told as rejected, and composites waited forever for a tell")
fixed("C13", "ea32e08", "initial values on the bounds had infinite coordinates with the tanh method: nan proposals")
fixed("C13", "7a2447a", "RotatedRecombiningGA failed on one variable")
fixed("C13", "2390607", "high speed CMA (HSCMA...) could not recommend when some asks were not told yet, or points repeated")
fixed("C30", "e271290", "nan proposals of MetaRecentering and RandomSearch(scale='auto') in dimension 1")
fixed("C30", "c67ecfe", "the RandomSampler gave other points after a reset (so that rescaled points left the cube), and one point was rescaled to nan")
fixed("C28", "1ab1072", "hm was nan at its optimum")
fixed("C28", "79947c6", "constraints added to the copy of a function were added to the function")
fixed("C28", "c2c62f2", "evaluations of hashed functions reset the random state of the optimization, so that noise was constant and proposals repeated")
fixed("C28", "ee64711", "FarOptimumFunction(multiobjective=True) had no upper bounds")
fixed("C29", "394f935", "OptimizationPrinter/OptimizationLogger with an interval of 10 tells reported at each tell (inverted comparison)")
fixed("C29", "7457b1e", "OptimizationPrinter raised RuntimeError at the first tell of a multiobjective optimization")
fixed("C29", "1159348", "ParametersLogger(order=0) logged sub-parameters (order ignored)")
fixed("C29", "e9311d1", "a log truncated within its last record could not be loaded, and the next record was appended to the interrupted one")
fixed("C29", "05b0b3e", "no_improvement_stopper never stopped CMA/DE/PSO/TBPSA (recommendations without loss), and failed in the multiobjective case")
fixed("C29", "71d51da", "records with np.float32, frozenset... values were dropped with a warning")
fixed("C29", "f6ade4e", "printing a recommendation with unsampled choices drew from the random state of the optimization: different proposals with and without the callback")
fixed("C31", "ad8259e", "the same placeholder in two files was accepted, although names must be unique")
fixed("C31", "fc55b41", "FolderInstantiator('..') instantiated in the parent of the temporary folder, and instantiate_to_folder('folder/sub/..') deleted and rewrote the original templates")
fixed("C31", "b64f55a", "form feeds became line terminations, CRLF became LF and the last termination was dropped by instantiation")
fixed("C31", "165f1af", "arrays were written with a Python format in .CPP files, types registered in uppercase were never found")
fixed("C31", "c1688e9", "register_file_type('x', '*') failed with a regular expression error")
fixed("C31", "fd9c9c8", "executable templates were not executable any more in the copies")
fixed("C31", "52b6ebe", "a command writing more than 64 kB of errors blocked forever")
fixed("C31", "579cf28", "blank output of the command raised IndexError instead of ValueError('No output')")
fixed("C31", "4a8976f", "instantiating twice to the same destination failed with FileExistsError for folders holding a broken link")

for name in (
    "ChainDSPowell ChainMetaModelDSSQP DS3p DS14 DS4 DS5 DS6 DS8 DS9 DSproba MetaModelDSproba MultiDS"
).split():
    opened("C12", f"all_optimizers:{name}", f"{name}: the directsearch library draws from the global np.random state, in the background thread")
opened("C12", "long:DS2", "DS2: the directsearch library draws from the global np.random state, in the background thread")
for name in ("PymooBIPOP", "PymooCMAES"):
    opened("C12", f"all_optimizers:{name}", f"{name}: pymoo draws the starting point of CMA-ES from the global np.random state")
for name in ("Cobyla", "RCobyla"):
    opened("C14", f"siblings:{name}", f"two live {name} optimizers block each other forever (scipy holds a global lock during the whole optimization)")
opened("C14", "siblings:NLOPT_LN_NEWUOA_BOUND", "deleting an unfinished NLOPT_LN_NEWUOA_BOUND freezes the process (nlopt's NEWUOA never returns when it is stopped by an exception)")
for name in ("NGOptF", "SplitCSEC11"):
    opened("C14", f"siblings:{name}", f"{name} blocks forever: it has two live Cobyla members (scipy holds a global lock during the whole optimization)")

# files under nevergrad/benchmark are taken for test files by the rules of this exercise, and cannot be modified
for name in ["MultiBFGS", "LogMultiBFGS", "SqrtMultiBFGS", "MultiCobyla", "MultiSQP", "LogMultiBFGSPlus", "SqrtMultiBFGSPlus", "MultiBFGSPlus", "MultiCobylaPlus", "MultiSQPPlus"]:
    opened("C16", f"announced:{name}:members", f"{name} is announced as a portfolio of {'BFGS' if 'BFGS' in name else 'Cobyla' if 'obyla' in name else 'SQP'}, but its second initialization replaces them by the default members of portfolios (several live members of some of these kinds block each other in scipy)")
opened("C16", "no_crossing:no-crossing", "ConfPortfolio(no_crossing=True) is ignored: each tell is sent to all members")
opened("C25", "failed_saves:partial", "save_or_append_to_csv: a save which fails leaves a partial file (it rewrites the file in place)")
opened("C26", "read_twice:twice", "MockedTimedJob.result: reading a job again raises an AssertionError or IndexError in steady mode")

if __name__ == "__main__":
    path = Path(__file__).resolve().parent.parent / "known_findings.json"
    path.write_text(json.dumps(OUT, indent=1) + "\n")
    print(len(OUT), "findings")
