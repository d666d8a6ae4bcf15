"""C12: same seed and same history give the same optimization."""
import importlib
import random
import typing as tp

import numpy as np
import nevergrad as ng
from mc import optim
from mc.engine import Chooser
from mc.lib import check, forked, same, snap
from mc.main import Scenario

RULE = (
    "an execution runs two optimizers created and seeded alike through the same history, one of them with everything else perturbed between the "
    "operations (global random states, candidate identifiers, other optimizers running in between, order of creation); the histories (losses, "
    "operations) are enumerated up to the depth for representative optimizers, and one history with every kind of operation is used for every "
    "registered optimizer. A state is the history of one optimizer."
)
ASSUMPTIONS = [
    "wrapped libraries which draw from the global random state or from the clock are listed as exceptions when their source is outside the repository",
    "only asked points and recommendations are compared (subsets of the Pareto front are drawn by an unseeded generator)",
]


def param(kind: str) -> tp.Any:
    if kind == "array":
        return ng.p.Array(shape=(2,))
    if kind == "bounded":
        return ng.p.Array(shape=(2,)).set_bounds(-1, 2)
    if kind == "mixed":
        return ng.p.Instrumentation(ng.p.Scalar(lower=-1, upper=1), x=ng.p.Choice(["a", "b", "c"]), y=ng.p.TransitionChoice(range(4)), z=ng.p.Log(lower=0.1, upper=10))
    if kind == "discrete":
        return ng.p.Choice([0, 1, 2], repetitions=3)
    raise ValueError(kind)


def perturb(k: int) -> None:
    np.random.seed(1000 + k)
    np.random.rand(k % 5 + 1)
    random.seed(77 + k)
    import uuid

    for _ in range(k % 3 + 1):
        uuid.uuid4()


def run_pair(ch: tp.Optional[Chooser], name: str, kind: str, steps: tp.Sequence[tp.Tuple[str, float]], budget: int, workers: int, seed: int) -> None:
    noise = ng.optimizers.registry["OnePlusOne"](3, budget=100)
    runs: tp.List[tp.Any] = []
    for which in range(2):
        if which:
            perturb(0)
            noise.ask()
        par = param(kind)
        opt = optim.create(name, par, budget=budget, num_workers=workers)
        opt.parametrization.random_state.seed(seed)
        pending: tp.List[tp.Any] = []
        trace: tp.List[tp.Any] = []
        for k, (op, loss) in enumerate(steps):
            if which:
                perturb(k + 1)
                cand = noise.ask()
                noise.tell(cand, float(k))
            if op == "ask":
                cand = opt.ask()
                pending.append(cand)
                trace.append(("ask", snap(cand.value)))
            elif op == "tell" and pending:
                opt.tell(pending.pop(0), loss)
            elif op == "last" and pending:
                opt.tell(pending.pop(), loss)
            elif op == "recommend" and opt.num_tell:
                trace.append(("recommend", snap(opt.recommend().value)))
            elif op == "foreign":
                child = opt.parametrization.spawn_child()
                child.set_standardized_data(np.linspace(-0.3, 0.4, opt.dimension))
                try:
                    opt.tell(child, loss)
                except ng.errors.TellNotAskedNotSupportedError:
                    pass
            elif op == "suggest":
                child = opt.parametrization.spawn_child()
                child.set_standardized_data(np.linspace(0.5, -0.2, opt.dimension))
                opt.suggest(*child.args, **child.kwargs)
        runs.append(trace)
    for k, (a, b) in enumerate(zip(*runs)):
        check(same(a, b), f"{name} on {kind}: step {k}: {a} and then {b} with the same seed and history", key=name)
    check(len(runs[0]) == len(runs[1]), f"{name}: different histories", key=name)
    if ch is not None:
        ch.state(name, kind, runs[0])


def all_optimizers(ch: Chooser, names: tp.List[str], kind: str, budget: int, asks: int, workers: int) -> None:
    name = ch.choose(names, "optimizer")
    par = optim.create(name, param(kind), num_workers=workers).num_workers > 1
    steps: tp.List[tp.Tuple[str, float]] = []
    losses = [3.0, 1.0, 2.0, 0.5, 4.0, 0.5, 0.1, 2.5]
    for k in range(asks):
        steps.append(("ask", 0.0))
        if par and k % 2 == 0:
            steps.append(("ask", 0.0))
            steps.append(("last", losses[(k + 3) % 8]))
        steps.append(("tell", losses[k % 8]))
    steps.append(("recommend", 0.0))
    run_pair(ch, name, kind, steps, budget, workers, 12)


def histories(ch: Chooser, name: str, kind: str, depth: int, losses: tp.List[float], workers: int) -> None:
    steps: tp.List[tp.Tuple[str, float]] = []
    pending = 0
    for _ in range(depth):
        ops = (["ask"] if pending < workers else []) + (["tell"] if pending else []) + (["last"] if pending > 1 else []) + ["suggest", "foreign"]
        op = ch.choose(ops, "operation")
        loss = ch.choose(losses, "loss") if op in ("tell", "last", "foreign") else 0.0
        pending += {"ask": 1, "tell": -1, "last": -1}.get(op, 0)
        steps.append((op, loss))
    steps += [("recommend", 0.0)] + [("ask", 0.0), ("tell", losses[0])] * 3 + [("recommend", 0.0)]
    run_pair(ch, name, kind, steps, 20, workers, 5)


def seeds(ch: Chooser, name: str, kind: str) -> None:
    """seeding through the parametrization determines the run, whenever it is done before the first ask"""
    how = ch.choose(["before", "after", "state object"], "seeding")
    traces = []
    for which in range(2):
        perturb(which)
        par = param(kind)
        if how == "before":
            par.random_state.seed(31)
        if how == "state object":
            par.random_state = np.random.RandomState(31)
        opt = optim.create(name, par, budget=30)
        if how == "after":
            opt.parametrization.random_state.seed(31)
        trace = []
        for k in range(5):
            cand = opt.ask()
            trace.append(snap(cand.value))
            opt.tell(cand, float((k * 7) % 5))
        trace.append(snap(opt.recommend().value))
        traces.append(trace)
    check(same(traces[0], traces[1]), f"{name}: different runs although seeded alike ({how}): {traces}", key=name)
    ch.state(name, kind, how, traces[0])


def benchmark_minimize(ch: Chooser, name: str) -> None:
    """same thing through minimize"""
    out = []
    for which in range(2):
        perturb(which)
        opt = optim.create(name, param("array"), budget=12)
        opt.parametrization.random_state.seed(3)
        asked: tp.List[tp.Any] = []

        def func(x: tp.Any) -> float:
            asked.append(snap(x))
            perturb(which + len(asked))
            return float(np.sum((x - 0.3) ** 2))

        rec = opt.minimize(func)
        out.append((asked, snap(rec.value)))
    check(same(out[0][0], out[1][0]) and same(out[0][1], out[1][1]), f"{name}: different minimize runs although seeded alike", key=name)
    ch.state(name, out[0])


def others(name: str, stage: int) -> None:
    """other optimizers of the same kind, on other domains"""
    pars = [ng.p.Array(shape=(1,)), ng.p.Choice([0, 1, 2]), ng.p.Array(shape=(4, 2)).set_bounds(-1, 1), ng.p.Scalar()]
    for k, par in enumerate(pars):
        if k % 2 != stage % 2:
            continue
        try:
            opt = optim.create(name, par, budget=[12, 100][stage % 2], num_workers=1 + 2 * stage)
            for j in range(3):
                opt.tell(opt.ask(), float(j))
            opt.recommend()
        except Exception:  # pylint: disable=broad-except
            pass  # not the subject


def alone_or_not(name: str, kind: str, asks: int, company: bool) -> tp.List[tp.Any]:
    np.random.seed(12)
    if company:
        others(name, 0)
    opt = optim.create(name, param(kind), budget=60, num_workers=1)
    opt.parametrization.random_state.seed(12)
    trace = []
    for k in range(asks):
        if company and k == 3:
            others(name, 1)
        cand = opt.ask()
        trace.append(snap(cand.value))
        opt.tell(cand, float((k * 5) % 7))
    trace.append(snap(opt.recommend().value))
    return trace


def independence(ch: Chooser, names: tp.List[str], kind: str, asks: int) -> None:
    """an optimizer behaves in the same way in a new process and after others of its kind were used"""
    name = ch.choose(names, "optimizer")
    alone = forked(lambda: alone_or_not(name, kind, asks, False))
    company = forked(lambda: alone_or_not(name, kind, asks, True))
    for k, (a, b) in enumerate(zip(alone, company)):
        check(same(a, b), f"{name} on {kind}: step {k} gives {a} when alone, {b} when other {name} optimizers are used", key=name)
    ch.state(name, kind, alone)


def preload() -> None:
    """so that each child process does not have to import them"""
    for lib in ("cma", "scipy.optimize", "scipy.stats", "sklearn.linear_model", "sklearn.neural_network", "sklearn.ensemble", "sklearn.svm", "fcmaes.cmaes", "hyperopt", "nlopt", "pymoo", "pybobyqa", "bayes_opt"):
        try:
            importlib.import_module(lib)
        except Exception:  # pylint: disable=broad-except
            pass


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    preload()
    deep = tier == "thorough"
    every = [n for n in optim.names(slow=deep) if n != "NLOPT_LN_NEWUOA_BOUND"]  # freezes when it is abandoned: see the known findings of C14
    allcfg = [dict(names=c, kind="array", budget=30, asks=5, workers=2) for c in optim.chunks(every, 16)]
    if deep:
        for kind in ("bounded", "mixed", "discrete"):
            allcfg += [dict(names=c, kind=kind, budget=30, asks=8, workers=2) for c in optim.chunks(every, 16)]
        allcfg += [dict(names=c, kind="array", budget=200, asks=25, workers=4) for c in optim.chunks(every, 16)]
    fast = [n for n in every if n not in optim.MEDIUM | optim.GLOBAL_RANDOM]
    longcfg = [dict(names=c, kind=k, budget=200, asks=90, workers=1) for k in (("array", "bounded", "mixed") if deep else ("array",)) for c in optim.chunks(fast, 64)]
    few = ["OnePlusOne", "DE", "PSO", "CMA", "TBPSA", "NGOpt", "RandomSearch", "LHSSearch", "cGA", "ES", "Portfolio"]
    few = [n for n in few if n in ng.optimizers.registry]
    hist = [dict(name=n, kind=k, depth=4 if deep else 3, losses=[1.0, 0.0], workers=2) for n in few for k in ("array", "mixed")]
    sd = [dict(name=n, kind=k) for n in few for k in ("array", "mixed", "discrete", "bounded")]
    blocking = optim.WITH_COBYLA | optim.GLOBAL_RANDOM | {"NLOPT_LN_NEWUOA_BOUND"}
    indep = [
        dict(names=c, kind=k, asks=40 if deep else 12)
        for k in (("mixed", "array", "bounded") if deep else ("mixed",))
        for c in optim.chunks([n for n in every if n not in blocking], 64)
    ]
    return {
        "independence": Scenario(independence, indep, limit=240.0),
        "histories": Scenario(histories, hist),
        "seeds": Scenario(seeds, sd),
        "minimize": Scenario(benchmark_minimize, [dict(name=n) for n in few]),
        "all_optimizers": Scenario(all_optimizers, allcfg),
        "long": Scenario(all_optimizers, longcfg),
    }
