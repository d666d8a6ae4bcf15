"""C27: benchmark experiments are reproducible and report the true losses."""
import contextlib
import io
import math
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.benchmark.xpbase import Experiment
from nevergrad.common import errors
from nevergrad.functions import ArtificialFunction, ExperimentFunction
from nevergrad.optimization import base
from mc import optim
from mc.engine import Chooser
from mc.lib import check, close
from mc.main import Scenario

RULE = (
    "an execution runs one small experiment after an explored history of other activities of the process (experiments of other or same settings, failing experiments, draws and reseedings of the global generators), "
    "or with the function or the optimizer failing at an explored call, or in an explored noisy, constrained, multiobjective or parallel setting; its summary is compared to the one obtained without history, "
    "to the exact evaluation of the recommendation, and to what the function and the executor saw. A state is a summary without its timing."
)
ASSUMPTIONS = [
    "the function only uses its own random state or the global numpy generator",
    "the experiment is reproducible if it is built from a seed: the function is created by the experiment plan, as in the benchmarks",
    "elapsed_time is not compared",
    "optimizers whose library draws from the global generator in background threads are known findings of C12, and are left out",
]

TIMING = {"elapsed_time"}


def summarize(xp: Experiment) -> tp.Dict[str, tp.Any]:
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        summary = xp.run()
    return {x: y for x, y in summary.items() if x not in TIMING}


def equal(a: tp.Any, b: tp.Any) -> bool:
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[x], b[x]) for x in a)
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, float) and not isinstance(b, str):
        return bool(a == b)
    return type(a) == type(b) and a == b


def differences(a: tp.Dict[str, tp.Any], b: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    return {x: (a.get(x), b.get(x)) for x in a.keys() | b.keys() if not equal(a.get(x), b.get(x))}


# experiments


class Stochastic(ExperimentFunction):
    """Uses its parametrization's random state, in its value, and in stochastic choices"""

    def __init__(self, level: float = 1.0) -> None:
        param = ng.p.Instrumentation(ng.p.Choice([0.0, 1.0, 2.0]), ng.p.Scalar(lower=-2, upper=2), z=ng.p.Array(shape=(2,)))
        super().__init__(self._func, param.set_name(""))
        self.level = level
        self.add_descriptors(level=level)

    def _func(self, x: float, y: float, z: tp.Any) -> float:
        return x + y * y + float(np.sum(z * z)) + self.level * self.parametrization.random_state.normal()

    def evaluation_function(self, *recommendations: ng.p.Parameter) -> float:
        (x, y), kwargs = recommendations[0].args, recommendations[0].kwargs
        return x + y * y + float(np.sum(kwargs["z"] ** 2))


class Legacy(ExperimentFunction):
    """Uses the global generator of numpy"""

    def __init__(self) -> None:
        super().__init__(self._func, ng.p.Array(shape=(3,)).set_name(""))

    def _func(self, x: tp.Any) -> float:
        return float(np.sum((x - np.random.normal(size=3)) ** 2)) + random.random()


class Multi(ExperimentFunction):
    def __init__(self) -> None:
        super().__init__(self._func, ng.p.Array(shape=(2,)).set_name(""))
        self.multiobjective_upper_bounds = np.array([5.0, 5.0])

    def _func(self, x: tp.Any) -> tp.Any:
        return np.array([np.sum((x - 1) ** 2), np.sum((x + 1) ** 2)])


PLANS: tp.Dict[str, tp.Callable[[], Experiment]] = {
    "sphere": lambda: Experiment(ArtificialFunction("sphere", 2), "OnePlusOne", 6, seed=12),
    "noisy": lambda: Experiment(ArtificialFunction("rastrigin", 2, noise_level=10, noise_dissymmetry=True, num_blocks=2, useless_variables=1), "TwoPointsDE", 8, num_workers=2, seed=12),
    "rotated": lambda: Experiment(ArtificialFunction("cigar", 3, rotation=True, translation_factor=2.0), "CMA", 12, num_workers=3, batch_mode=False, seed=12),
    "stochastic": lambda: Experiment(Stochastic(), "NaiveTBPSA", 8, num_workers=2, seed=12),
    "legacy": lambda: Experiment(Legacy(), "RandomSearch", 6, seed=12),
    "multi": lambda: Experiment(Multi(), "DE", 8, seed=12),
    "conf": lambda: Experiment(ArtificialFunction("sphere", 3), ng.families.ParametrizedOnePlusOne(mutation="doerr"), 6, seed=12),
    "portfolio": lambda: Experiment(ArtificialFunction("sphere", 2), ng.families.ConfPortfolio(optimizers=["CMA", "OnePlusOne"], warmup_ratio=0.4), 10, seed=12),
    "ngopt": lambda: Experiment(Stochastic(0.0), "NGOpt", 10, seed=12),
    "pso": lambda: Experiment(ArtificialFunction("sphere", 2), "PSO", 8, seed=12, suggestions=[np.array([0.5, 0.5])]),
    "zero": lambda: Experiment(ArtificialFunction("sphere", 2, noise_level=1), "RandomSearch", 5, seed=0),
    "constrained": lambda: Experiment(ArtificialFunction("sphere", 2), "OnePlusOne", 6, seed=12, constraint_violation=[lambda x: float(np.max(x) - 0.3)]),
}


class Failing(ExperimentFunction):
    def __init__(self, when: int, error: tp.Any = ValueError) -> None:
        super().__init__(self._func, ng.p.Array(shape=(2,)).set_name(""))
        self.when, self.error = when, error
        self.count = 0

    def copy(self) -> tp.Any:
        return self

    def _func(self, x: tp.Any) -> float:
        self.count += 1
        if self.count == self.when:
            raise self.error("on purpose")
        return float(np.sum(x**2))

    def evaluation_function(self, *recommendations: ng.p.Parameter) -> float:
        return float(np.sum(recommendations[0].args[0] ** 2))


BEFORE: tp.Dict[str, tp.Callable[[], tp.Any]] = {
    "draws": lambda: (np.random.normal(size=17), random.random()),
    "reseed": lambda: (np.random.seed(3), random.seed(4)),
    "optimizer": lambda: ng.optimizers.CMA(3, budget=20).minimize(lambda x: float(np.sum(x**2))),
    "unseeded": lambda: summarize(Experiment(ArtificialFunction("sphere", 2, noise_level=1), "DE", 5)),
    "failing": lambda: summarize(Experiment(Failing(3), "PSO", 5, seed=1)),
    "other seed": lambda: summarize(Experiment(ArtificialFunction("rastrigin", 2, noise_level=1), "CMA", 12, seed=99)),
}


def reproducible(ch: Chooser, plan: str, length: int) -> None:
    expected = summarize(PLANS[plan]())
    check(not expected["error"], f"{plan}: {expected['error']}", key="error")
    early = ch.flag("built before")
    xp = PLANS[plan]() if early else None
    history = []
    for _ in range(length):
        act = ch.choose(["end", "same", "copy"] + list(BEFORE) + [p for p in PLANS if p != plan], "history")
        if act == "end":
            break
        history.append(act)
        if act == "same":
            summarize(PLANS[plan]())
        elif act == "copy":
            PLANS[plan]().function.copy()
        elif act in BEFORE:
            BEFORE[act]()
        else:
            summarize(PLANS[act]())
    result = summarize(PLANS[plan]() if xp is None else xp)
    check(equal(result, expected), f"after {history} (built before: {early}): {differences(result, expected)}", key="summary")
    ch.state((plan, tuple(history), early))


def optimizers(ch: Chooser, names: tp.List[str]) -> None:
    """All registered optimizers, with the same seed and different histories"""
    name = ch.choose(names, "name")
    workers = ch.choose([1, 3], "workers")
    kind = ch.choose(["continuous", "mixed"], "function")

    def make() -> Experiment:
        func: tp.Any = ArtificialFunction("sphere", 2, noise_level=1) if kind == "continuous" else Stochastic(0.1)
        return Experiment(func, name, 7, num_workers=workers, seed=7)

    try:
        if make().is_incoherent:
            return
        first = summarize(make())
        np.random.seed(123)
        random.seed(55)
        np.random.normal(size=3)
        second = summarize(make())
    except errors.UnsupportedExperiment:
        return
    check(equal(first, second), f"{name} with {workers} workers on {kind}: {differences(first, second)}", key=f"{name}:summary")
    ch.state((name, workers, kind))


# failures


class Erratic(base.Optimizer):
    """Fails at its given ask or tell"""

    FAIL: tp.Tuple[str, int] = ("", 0)

    def _internal_ask_candidate(self) -> tp.Any:
        if self.FAIL == ("ask", self.num_ask + 1):
            raise KeyError("on purpose")
        return self.parametrization.sample()

    def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
        if self.FAIL == ("tell", self.num_tell + 1):
            raise KeyError("on purpose")


def failures(ch: Chooser, workers: int, batch: bool) -> None:
    budget = 6
    what = ch.choose(["function", "ask", "tell", "budget", "unsupported", "copy", "final"], "what")
    when = ch.choose(list(range(1, budget + 2)), "when") if what in ("function", "ask", "tell", "unsupported") else 0
    Erratic.FAIL = (what, when)
    kind = {"unsupported": errors.UnsupportedExperiment, "copy": errors.ExperimentFunctionCopyError}.get(what, ValueError)
    func = Failing(when if what in ("function", "unsupported") else 0, kind)
    if what == "copy":
        def failing_copy() -> tp.Any:
            raise errors.ExperimentFunctionCopyError("on purpose")
        func.copy = failing_copy  # type: ignore
    if what == "final":
        def failing_evaluation(*_: tp.Any) -> float:
            raise ArithmeticError("on purpose")
        func.evaluation_function = failing_evaluation  # type: ignore
    xp = Experiment(func, Erratic, budget, num_workers=workers, batch_mode=batch, seed=5)  # type: ignore
    raised: tp.Any = None
    summary: tp.Dict[str, tp.Any] = {}
    try:
        summary = summarize(xp)
    except Exception as e:  # pylint: disable=broad-except
        raised = type(e)
    fails = what in ("final", "copy") or 0 < when <= budget
    if what in ("unsupported", "copy") and fails:
        check(raised is kind, f"{what} at {when} gave {summary} instead of an error", key="propagated")
        ch.state((what, when))
        return
    check(raised is None, f"{what} at {when}: the run raised {raised}", key="raised")
    name = {"function": "ValueError", "ask": "KeyError", "tell": "KeyError", "final": "ArithmeticError"}.get(what, "") if fails else ""
    check(summary["error"] == name, f"{what} at {when}: error {summary['error']!r} instead of {name!r}", key="error")
    check(summary["elapsed_budget"] == xp._optimizer.num_ask or what == "final", f"elapsed budget {summary['elapsed_budget']}", key="budget")
    if not name:
        check(summary["elapsed_budget"] == budget == func.count, f"{what} at {when}: elapsed budget {summary['elapsed_budget']}, {func.count} calls", key="budget")
    elif what == "final":
        check(math.isnan(summary["loss"]), f"loss {summary['loss']} without final evaluation", key="loss")
    if what != "final":
        best = xp._optimizer.provide_recommendation()
        check(close(summary["loss"], float(np.sum(best.args[0] ** 2))), f"loss {summary['loss']} for {best.args}", key="loss")
    Erratic.FAIL = ("", 0)
    # the following experiment is not affected
    after = summarize(PLANS["noisy"]())
    check(not after["error"], f"after a failure: {after['error']}", key="after")
    reference = REFERENCE.setdefault("noisy", after)
    check(equal(after, reference), f"after {what} at {when}: {differences(after, reference)}", key="after")
    ch.state((what, when, workers, batch))


REFERENCE: tp.Dict[str, tp.Any] = {}


# what is reported


class Watched(ExperimentFunction):
    """Noise is explored, and calls are recorded"""

    def __init__(self, ch: Chooser, objectives: int = 1) -> None:
        super().__init__(self._func, ng.p.Array(init=[0.5, -0.25]).set_name(""))
        self.ch = ch
        self.calls: tp.List[tp.Any] = []
        self.evaluated: tp.List[tp.Any] = []
        if objectives == 2:
            self.multiobjective_upper_bounds = np.array([3.0, 3.0])

    def copy(self) -> tp.Any:
        return self

    @staticmethod
    def exact(x: tp.Any) -> float:
        return float(np.sum((np.asarray(x) - 0.5) ** 2))

    def _func(self, x: tp.Any) -> tp.Any:
        noise = self.ch.choose([0.0, -50.0, 50.0], "noise") if self.multiobjective_upper_bounds is None else 0.0
        self.calls.append((np.array(x), self.exact(x) + noise))
        if self.multiobjective_upper_bounds is not None:
            return [self.exact(x), self.exact(-np.asarray(x))]
        return self.exact(x) + noise

    def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
        return float(self.ch.choose([1, 2], "time"))

    def evaluation_function(self, *recommendations: ng.p.Parameter) -> float:
        self.evaluated.append(recommendations)
        if self.multiobjective_upper_bounds is not None:
            return super().evaluation_function(*recommendations)
        return self.exact(recommendations[0].args[0])


def reported(ch: Chooser, optimizer: str, budget: int, workers: int, batch: bool, violation: tp.Optional[str], penalize: bool, objectives: int) -> None:
    func = Watched(ch, objectives)
    conf: tp.Dict[str, tp.Any] = {}
    if violation == "function":
        conf["constraint_violation"] = [lambda x: float(x[0] - 0.4)]
    elif violation == "checker":
        func.parametrization.register_cheap_constraint(lambda x: bool(x[0] <= 0.4))
    xp = Experiment(func, optimizer, budget, num_workers=workers, batch_mode=batch, seed=3, penalize_violation_at_test=penalize, **conf)
    summary = summarize(xp)
    check(not summary["error"], f"{summary['error']}", key="error")
    check(summary["elapsed_budget"] == budget == len(func.calls), f"{summary['elapsed_budget']} and {len(func.calls)} calls for a budget of {budget}", key="budget")
    check((summary["budget"], summary["num_workers"], summary["batch_mode"], summary["seed"], summary["optimizer_name"]) == (budget, workers, batch, 3, optimizer), f"description {summary}", key="settings")
    opt: tp.Any = xp._optimizer
    check((opt.num_ask, opt.num_tell - (objectives == 2), opt.budget, opt.num_workers) == (budget, budget, budget, workers) or objectives == 2, f"asks {opt.num_ask}, tells {opt.num_tell}", key="settings")
    check(len(func.evaluated) == 1, f"{len(func.evaluated)} final evaluations", key="final")
    if objectives == 2:
        expected = -1.0 * volume([(func.exact(x), func.exact(-x)) for x, _ in func.calls], 3.0)
        check(close(summary["loss"], expected, atol=1e-6), f"hypervolume {summary['loss']} instead of {expected}", key="loss")
    else:
        best = opt.recommend()
        value = func.exact(best.args[0])
        violated = violation is not None and best.args[0][0] > 0.4
        expected = value + (1e9 if violated and penalize else 0)
        check(close(summary["loss"], expected, rtol=1e-12), f"loss {summary['loss']} instead of {expected} for the recommendation {best.args}, violation {violated}", key="loss")
        check(any(np.array_equal(best.args[0], x) for x, _ in func.calls) or np.isfinite(value), "recommendation", key="loss")
    check(summary["num_objectives"] == objectives, f"{summary['num_objectives']} objectives", key="objectives")
    ch.state((optimizer, workers, batch, tuple(c[1] for c in func.calls)))


def volume(points: tp.List[tp.Tuple[float, float]], bound: float) -> float:
    """Area dominated by the points below the bound"""
    total, top = 0.0, bound
    for x, y in sorted(points):
        if x < bound and y < top:
            total += (bound - x) * (top - y)
            top = y
    return total


def pseudotime(ch: Chooser, workers: int, batch: bool, budget: int) -> None:
    """The reported time is the one of an independent simulation of the workers"""
    func = Watched(ch)
    durations: tp.List[float] = []

    def duration(input_parameter: tp.Any, loss: tp.Any) -> float:
        durations.append(float(ch.choose([1, 2, 5], "time")))
        return durations[-1]

    func.compute_pseudotime = duration  # type: ignore
    func._func = lambda x: func.exact(x)  # type: ignore
    func._ExperimentFunction__function = func._func  # type: ignore
    xp = Experiment(func, "RandomSearch", budget, num_workers=workers, batch_mode=batch, seed=3)
    summary = summarize(xp)
    check(not summary["error"], summary["error"], key="error")
    check(len(durations) == budget, f"{len(durations)} durations", key="durations")
    if batch:
        expected = sum(max(durations[k : k + workers]) for k in range(0, budget, workers))
    else:
        free = [0.0] * workers
        for d in durations:
            k = free.index(min(free))
            free[k] += d
        expected = max(free)
    check(summary["pseudotime"] == expected, f"time {summary['pseudotime']} instead of {expected} for {durations} on {workers} workers, batch {batch}", key="time")
    ch.state((workers, batch, tuple(durations)))


def distinct(ch: Chooser) -> None:
    """Different experiments have different descriptions, and are not equal"""
    axes: tp.List[tp.Tuple[str, tp.List[tp.Any]]] = [
        ("name", ["sphere", "cigar"]),
        ("block_dimension", [2, 3]),
        ("num_blocks", [1, 2]),
        ("noise_level", [0, 1]),
        ("rotation", [False, True]),
        ("useless_variables", [0, 1]),
        ("optimizer", ["OnePlusOne", "CMA"]),
        ("budget", [5, 6]),
        ("num_workers", [1, 2]),
        ("batch_mode", [True, False]),
        ("seed", [None, 0, 1]),
    ]

    def make(label: str) -> tp.Tuple[tp.Any, ...]:
        return tuple(ch.choose(values, f"{label}:{axis}") for axis, values in axes)

    def build(v: tp.Tuple[tp.Any, ...]) -> Experiment:
        func = ArtificialFunction(v[0], block_dimension=v[1], num_blocks=v[2], noise_level=v[3], rotation=v[4], useless_variables=v[5])
        return Experiment(func, v[6], v[7], num_workers=v[8], batch_mode=v[9], seed=v[10])

    one, two = make("first"), make("second")
    a, b = build(one), build(two)
    check((a == b) == (one == two), f"experiments {one} and {two} are {'equal' if a == b else 'different'}", key="equality")
    da, db = a.get_description(), b.get_description()
    check(equal(da, db) == (one == two), f"descriptions of {one} and {two}: {differences(da, db)}", key="description")
    ch.state((one, two))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier != "quick"
    names = [n for n in optim.names(slow=deep) if n not in optim.UNSTABLE | optim.GLOBAL_RANDOM | optim.TWO_COBYLAS_LATER | optim.WITH_COBYLA | {"NGOptF5"} and (deep or n not in optim.MEDIUM)]
    parts = optim.chunks(names, 40)
    rep = [
        dict(optimizer=o, budget=4 if o != "DE" else 5, workers=w, batch=b, violation=v, penalize=pen, objectives=n)
        for o in ("OnePlusOne", "RandomSearch", "DE", "TBPSA")
        for w, b in ((1, True), (2, True), (2, False))
        for v, pen, n in ((None, True, 1), ("function", True, 1), ("function", False, 1), ("checker", True, 1), ("checker", False, 1), (None, True, 2))
    ]
    return {
        "reproducible": Scenario(reproducible, [dict(plan=plan, length=2) for plan in PLANS], max_dev=None if deep else 2),
        "optimizers": Scenario(optimizers, [dict(names=part) for part in parts]),
        "failures": Scenario(failures, [dict(workers=w, batch=b) for w, b in ((1, True), (2, True), (2, False), (3, True))]),
        "reported": Scenario(reported, rep, max_dev=4 if deep else 2),
        "pseudotime": Scenario(pseudotime, [dict(workers=w, batch=b, budget=6 if deep else 5) for w in (1, 2, 3) for b in (True, False)]),
        "distinct": Scenario(distinct, [{}], max_dev=5 if deep else 3),
    }


