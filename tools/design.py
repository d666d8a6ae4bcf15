"""Writes DESIGN.md from its fixed parts (here), the rules and bounds of the checks, the known findings and the planted bugs."""
import importlib
import json
import sys
from pathlib import Path

sys.path[:0] = ["/repo", "/verif", "/verif/tools"]
import levels  # type: ignore  # pylint: disable=wrong-import-position

ROOT = Path("/verif")
HEAD = '''# Model checking nevergrad

This file is written by `tools/design.py` from the rules of the checks (`mc/checks/cNN.py`), their bounds (`tools/levels.py`), the known findings (`tools/known.py`) and the
planted bugs (`seeded/`).

## Approach

All checks are *stateless model checking of the real code*: nevergrad itself is imported from the working tree of /repo and driven, through its public interface, by closed drivers
whose every nondeterministic decision (next operation, completion order of jobs, loss, random draw, fault, truncation point, thread to be scheduled...) is an explicit choice point.
`mc/engine.py` enumerates all the sequences of choices depth first, by re-execution from the initial state: an execution is identified by its list of choices, which is also what a
replay file contains (`./check.sh CNN --replay FILE` runs it again). There is no sampling: pseudo-random seeds only appear as one more finite choice, or fixed, when the property is about
seeded behaviour. The deciding step of every check is that enumeration, together with an oracle which is evaluated on every execution (or every state of it).

* **Reduction.** `max_dev` bounds the number of non-default choices (deviation bounding, the analogue of preemption bounding); `dedupe` prunes executions which reach an already explored
  state (the state being a canonical digest of the observable content of the real objects, computed by the driver). Both are per scenario, and reported in the evidence.
* **Controlled environment.** `mc/lib.py`: virtual clock (`time.time`, `time.sleep`), executors whose futures complete when the explorer says so, scratch folders. `mc/sched.py`: real threads of
  the recasters run one at a time, handing over control at each blocking operation on queues, joins and starts, so that all interleavings at these points are explored.
  `mc/rng.py`: random states which serve explored draws, so that "for all random draws" becomes an enumeration over a grid.
* **Models.** Where the oracle is a reference model (population of DE/PSO/ES, NSGA-II ranking, archive, containers, samplers, parser of templates...) it runs in lockstep with the implementation
  on each explored sequence of operations, and is compared after each of them: the conformance of the model is checked on every transition, by construction (`traces_validated_against_impl` is the number
  of executions).
* **Parallelism.** `mc/main.py` distributes configurations (and prefixes of large ones) on the cores of the machine. A check which reaches its deadline says `capped=True` in its
  evidence and explores configurations in the same order; on the sandbox quick checks take between 4 s and a minute.
* **Verdicts.** Each violation has a key `scenario:key`. Keys listed with status "open" in `known_findings.json` print `KNOWN-FINDING` lines and exit 0; anything else prints
  `VIOLATION property=... replay=...` and exits 1. Nothing is ever added to this file at run time.
* **No hooks.** No instrumentation was needed in /repo (`hooks` is empty in MANIFEST.json): everything is observed through the interface or by replacing objects of the standard library.

Tiers: `quick` is run at each change; `thorough` (VERIF_TIER=thorough) has the deeper bounds given below.

### Commands

`./check.sh CNN [quick|thorough]` (or `VERIF_TIER`), `./setup.sh` (nothing to build: the code is Python and is imported from /repo). For development: `VERIF_ONLY=scenario`, `VERIF_REPO=/tmp/copy`,
`tools/av.sh CNN tier scenario` (all the violations by key), `tools/plant.py [ids]` (writes and validates planted bugs), `tools/plant.py --check [ids]` (runs the checks on them).

### What is out of reach

* Statistical quality of the optimizers (convergence speed) is not a property of finite executions, and is not claimed.
* Third party libraries (pymoo, nlopt, cma, hyperopt, scipy, SMAC, AX...) are run as they are. AX and pysot cannot be imported here. PCABO/BO and random forests are only in the thorough tier for cost.
* Files under `nevergrad/benchmark/` count as tests for this task, and were not modified: defects found there can only be listed.

## Properties
'''

NOTES = {
    "C05": "False alarm corrected: the selection of DE is not the plain comparison of losses for multiobjective and penalized candidates; the model follows the documented heuristics.",
    "C07": "False alarm corrected: points which are worse than the reference on all objectives are only kept while nothing else is known.",
    "C08": "False alarm corrected: the loss of points outside of the reference box is a distance (no hypervolume), only its sign and order are specified. `RandomSearch`-like optimizers skip the hypervolume, by design.",
    "C12": "Members of wrapped libraries which draw from the global random state are listed as known findings.",
    "C13": "False alarms corrected: unbounded logarithmic variables overflow far from their initial value, and EDA-like optimizers refuse suggestions: both are outside of the statement.",
    "C14": "Two live COBYLA solvers block each other inside of the wrapped Fortran code: listed as known findings.",
    "C15": "False alarm corrected: the order of pymoo batches is an internal detail, a fake pymoo algorithm which records what it receives is used instead.",
    "C17": "False alarms corrected: the minimum over repeated tells is the minimum of the means; averages of discrete values are resampled; extremely large vectors saturate.",
    "C18": "False alarm corrected: recommendations with stochastic choices are resampled, only their satisfaction of the constraints is specified.",
    "C19": "False alarm corrected: transitions which lose information (integer casting, clipping) reset the baseline of the comparison.",
    "C20": "False alarms corrected: tanh bounds saturate at infinity; draws equal to zero are possible only on grids.",
    "C21": "False alarm corrected: constants share their heritage with their copies.",
    "C22": "False alarm corrected: `spawn_child(new_value=None)` means that there is no new value.",
    "C23": "False alarm corrected: names of the indices of choices follow the type of the choice.",
    "C24": "False alarms corrected: crossovers may mutate all coordinates, and operators share their lineage when copied.",
    "C28": "False alarms corrected (harness): the split functions take one argument per block, rotated functions are only compared up to rounding.",
    "C29": "False alarms corrected (harness): abnormal losses are clipped before being logged, as announced; two candidates were held for optimizers without parallelism. Decided by truncation for crash points: the logger only appends.",
    "C30": "False alarm corrected: the additional middle point is the initial value, not the middle of the bounds.",
    "C31": "Build files reached through the links of the copy can be modified by a command (documented drawback), and are outside of the statement.",
    "C16": "False alarms corrected (harness): instances made while checking a configuration are not members, and the first point of some members is a suggestion, told back as not asked.",
    "C27": "False alarm corrected: MultiDS and others draw from the global generator in several threads (finding of C12), and are left out. Changes of the experiment code tried by hand: seeding removed or too late, noisy final evaluation, penalties, truncated front, budget from tells, seed 0, equality ignoring seeds: all detected.",
}

ODDITIES = '''## Observed and left as they are

These are not violations of the properties as stated (documented, arguable, or outside of the quantifiers), and are listed for maintainers: Crossover and LocalGaussian never touch the last entry of an axis;
doerr_discrete_mutation ignores the arity below 5 variables; Modulo accepts a value equal to its module; Power of a negative number gives nan backward; HyperOpt excludes the upper bound of integers;
the same parameter at different depths of a container is not refused; a refused tuple value may be partially set; MultiValue clips at 1e10; composites multiply the attempts of hard constraints;
NaN constraints count as satisfied; nested constraints are ignored by the penalty; infeasible points enter the multiobjective front; tabu OnePlusOne changes the user's parametrization; integer casting of huge values overflows;
one-sided bounds with bouncing on a Log can leave its domain; average_of_hull_best and average_of_exp_best are ignored by SamplingSearch; several core functions need at least 2 variables; st1, st10, st100 use the global random state;
utils.sample_nash and the initial point of PymooCMAES use the global random state; Portfolio.no_crossing is never set; the "EPS" score of subsets is degenerate; ParametersLogger does not log constants.
'''


def main() -> None:
    props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
    manifest = json.loads((ROOT / "MANIFEST.json").read_text())
    na = {x["property"] if "property" in x else x["id"]: x.get("reason", "") for x in map(lambda y: y if isinstance(y, dict) else {"property": y}, manifest["not_applicable"])}
    known = json.loads((ROOT / "known_findings.json").read_text())
    out = [HEAD]
    for prop in props:
        ident = prop["id"]
        out.append(f"### {ident}. {prop['title']}\n\n*Specified.* {prop['statement']}\n")
        if ident in na:
            out.append(f"*Not claimed.* {na[ident]}\n")
            continue
        mod = importlib.import_module(f"mc.checks.{ident.lower()}")
        level = levels.LEVELS[ident]
        out.append(f"*Decided by.* {level[0].capitalize()}: {mod.RULE}\n")
        out.append(f"*Bounds.* {level[-1]}\n")
        out.append("*Scenarios.* " + ", ".join(f"`{s}`" for s in mod.scenarios("quick")) + f" (`mc/checks/{ident.lower()}.py`).\n")
        out.append(f"*What tests miss.* {prop['why_tests_cant']}\n")
        if mod.ASSUMPTIONS:
            out.append("*Assumptions.* " + "; ".join(mod.ASSUMPTIONS) + ".\n")
        evidence = ROOT / "evidence" / f"{ident}.json"
        if ident in NOTES and NOTES[ident]:
            out.append(f"*Notes.* {NOTES[ident]}\n")
        fixed = [x for x in known if x["property"] == ident and x["status"] == "fixed"]
        opened = [x for x in known if x["property"] == ident and x["status"] != "fixed"]
        if fixed:
            out.append("*Defects found by this check and repaired.*\n" + "".join(f"\n- {x['commit']}: {x['what']}" for x in fixed) + "\n")
        if opened:
            out.append("*Known findings (not repaired).*\n" + "".join(f"\n- `{x['key']}`: {x['what']}" for x in opened) + "\n")
    out.append("## Quick tier on the unchanged tree\n\n| check | states | executions | seconds (8 cores) |\n|---|---|---|---|")
    costs = json.loads((ROOT / "tools" / "costs.json").read_text())
    for ident, (states, runs, wall) in sorted(costs.items()):
        out.append(f"| {ident} | {states} | {runs} | {wall} |")
    out.append("\n## Planted bugs\n\nEach is a patch in `seeded/`, with a demonstration, which passes the test suite. Those marked with a star were moved to `seeded_also/` (same contents, validated and found in earlier complete runs) to shorten the runs of vcheck. All are found by the quick check of their property unless said otherwise.\n\n| id | property | what it breaks | needs | found by |\n|---|---|---|---|---|")
    for folder in sorted(f for d in ("seeded", "seeded_also") for f in (ROOT / d).iterdir()):
        meta = json.loads((folder / "meta.json").read_text())
        found = json.loads((ROOT / "tools" / "caught.json").read_text()).get(folder.name, "")
        out.append(f"| {folder.name}{"" if folder.parent.name == "seeded" else " *"} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} | {found} |")
    out.append("\n" + ODDITIES)
    (ROOT / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    main()
