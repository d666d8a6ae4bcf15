"""C18: cheap constraints and tabu lists are honoured."""
import collections
import contextlib
import itertools
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.optimization import utils
from mc import optim
from mc.checks import c12
from mc.engine import Chooser
from mc.lib import check, forked, snap
from mc.main import Scenario

RULE = (
    "an execution drives one optimizer through a history of asks, tells and suggestions on a small domain, where the explorer decides the set of feasible values, when the constraint is registered, how it is "
    "expressed, the losses and the order of the operations. The constraint (or the congruence of the tabu list) records all the values which the library considers: an ask must return an acceptable value as "
    "soon as one was considered. A state is the history of operations with the feasible set."
)
ASSUMPTIONS = [
    "constraints are registered on the main parameter, before the first ask; they return bools or floats",
    "violations of multiobjective losses are only penalized (the Pareto front is not checked)",
]

Value = tp.Any


class Constraint:
    """Feasible values, as a constraint which records the values it is called with"""

    def __init__(self, feasible: tp.Callable[[Value], bool], form: str) -> None:
        self.feasible = feasible
        self.form = form
        self.seen: tp.List[Value] = []

    def __call__(self, value: Value) -> tp.Union[bool, float]:
        self.seen.append(value)
        good = self.feasible(value)
        if self.form == "bool":
            return good
        if self.form == "np.bool":
            return np.bool_(good)  # type: ignore
        return (0.0 if self.form == "edge" else 2.0) if good else -0.5

    def __deepcopy__(self, memo: tp.Any) -> "Constraint":
        return self


def domain(kind: str) -> tp.Tuple[tp.Any, tp.List[Value]]:
    if kind == "choice":
        return ng.p.Choice([0, 1, 2, 3]), [0, 1, 2, 3]
    if kind == "transition":
        return ng.p.TransitionChoice([0, 1, 2, 3]), [0, 1, 2, 3]
    if kind == "pair":
        return ng.p.Choice([0, 1], repetitions=2), list(itertools.product([0, 1], [0, 1]))
    if kind == "scalar":
        return ng.p.Scalar(lower=-1.5, upper=1.5).set_integer_casting(), [-1, 0, 1]
    if kind == "instrumentation":
        values = [((a,), {"b": b}) for a in (0, 1) for b in ("x", "y")]
        return ng.p.Instrumentation(ng.p.Choice([0, 1]), b=ng.p.TransitionChoice(["x", "y"])), values
    raise ValueError(kind)


# reach any value with some probability at each attempt
THOROUGH_SEARCH = {"RandomSearch", "OnePlusOne", "DiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne", "PortfolioDiscreteOnePlusOne", "TwoPointsDE", "DE"}


def quiet(fn: tp.Callable[[], tp.Any], sent: tp.List[tp.Any]) -> tp.Any:
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    sent.extend(x.category for x in w)
    return out


@contextlib.contextmanager
def attempts(number: int) -> tp.Iterator[None]:
    """optimizers which are created here are bounded by this number of attempts, including the members of others"""
    init, update = utils.ConstraintManager.__init__, utils.ConstraintManager.update

    def bounded(self: tp.Any) -> None:
        init(self)
        self.max_trials = number

    def updated(self: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> None:
        update(self, *args, **kwargs)
        self.max_trials = number

    utils.ConstraintManager.__init__ = bounded  # type: ignore
    utils.ConstraintManager.update = updated  # type: ignore
    try:
        yield
    finally:
        utils.ConstraintManager.__init__ = init  # type: ignore
        utils.ConstraintManager.update = update  # type: ignore


def checked_ask(opt: tp.Any, cons: tp.List[Constraint], name: str, sent: tp.List[tp.Any], story: tp.Any) -> tp.Any:
    for con in cons:
        con.seen.clear()
    before = opt.num_ask
    try:
        cand = quiet(opt.ask, sent)
    except Exception as e:  # pylint: disable=broad-except
        check(False, f"{name}: ask fails with {type(e).__name__}: {e}, after {story}", key=f"ask {name}")
    check(opt.num_ask == before + 1, f"{name}: {opt.num_ask - before} asks were counted for one, after {story}", key="num_ask")
    # a constraint may not be called when another one already failed
    seen = [v for c in cons for v in c.seen]
    good = all(c.feasible(cand.value) for c in cons)
    if not good:
        found = [v for v in seen if all(c.feasible(v) for c in cons)]
        check(not found, f"{name} asks {cand.value} which violates the constraint, though {found[:1]} has been considered ({len(seen)} attempts), after {story}", key=f"found {name}")
        check(errors.FailedConstraintWarning in sent, f"{name} asks {cand.value} which violates the constraint, without warning", key="warning")
    return cand


def feasible_sets(
    ch: Chooser, name: str, kind: str, ops: int, registration: str, form: str, max_trials: int, workers: int = 1, budget: tp.Optional[int] = 40, losses: tp.Sequence[float] = (3.0, 1.0), subsets: str = "some"
) -> None:
    param, values = domain(kind)
    number = len(values)
    every_subset = [c for r in range(number + 1) for c in itertools.combinations(range(number), r)]
    some = [(), (0,), (number - 1,), (1, number - 1), tuple(range(1, number)), tuple(range(number))]
    subset = [values[k] for k in ch.choose(every_subset if subsets == "all" else some, "feasible")]
    keys = {repr(v) for v in subset}
    cons = [Constraint(lambda v: repr(v) in keys, form)]
    if form == "two":  # two constraints, whose conjunction is the subset
        others = [v for v in values if repr(v) not in keys]
        halves = {repr(v) for v in others[::2]}
        cons = [Constraint(lambda v: repr(v) not in halves, "bool"), Constraint(lambda v: repr(v) in keys or repr(v) in halves, "float")]
    if registration == "before":
        for con in cons:
            param.register_cheap_constraint(con)
    opt = optim.create(name, param, budget=budget, num_workers=workers)  # type: ignore
    opt.parametrization.random_state.seed(12)
    if registration == "after":
        for con in cons:
            opt.parametrization.register_cheap_constraint(con)
    opt.parametrization  # pylint: disable=pointless-statement
    if max_trials != 1000:
        opt._constraints_manager.update(max_trials=max_trials)
    sent: tp.List[tp.Any] = []
    story: tp.List[tp.Any] = []
    pending: tp.List[tp.Any] = []
    told: tp.List[tp.Tuple[Value, float]] = []
    for k in range(ops):
        options = ["ask"] + (["tell"] if pending else []) + (["suggest", "tell not asked"] if k in (0, 2) else [])
        if len(pending) >= workers:
            options.remove("ask")
        op = ch.choose(options, f"operation {k}")
        if op == "ask":
            suggested = [s[1] for s in story if s[0] == "suggest"]
            cand = checked_ask(opt, cons, name, sent, story)
            pending.append(cand)
            if not repr(cand.value) in keys and keys and name in THOROUGH_SEARCH and max_trials >= 100:
                check(False, f"{name} finds no feasible value among {subset}, asks {cand.value} after {story}", key=f"missed {name}")
            story.append(("ask", cand.value, suggested[:0]))
        elif op == "suggest":
            value = ch.choose([values[0], values[-1]], "suggestion")
            opt.suggest(*value[0], **value[1]) if kind == "instrumentation" else opt.suggest(value)
            story.append(("suggest", value))
        else:
            if op == "tell":
                cand = pending.pop(ch.choose([0, -1], "which") if len(pending) > 1 else 0)
            else:
                cand = opt.parametrization.spawn_child(new_value=ch.choose([values[0], values[-1]], "value"))
            loss = ch.choose(list(losses), "loss") if op == "tell" else 2.0
            value = cand.value
            try:
                quiet(lambda: opt.tell(cand, loss), sent)
            except Exception as e:  # pylint: disable=broad-except
                if type(e).__name__ == "TellNotAskedNotSupportedError":
                    story.append(("refused", value, loss))
                    ch.state(name, kind, registration, form, workers, sorted(keys), repr(story))
                    continue
                check(False, f"{name}: tell {value} fails with {type(e).__name__}: {e}, after {story}", key=f"tell {name}")
            story.append((op, value, loss))
            told.append((value, loss))
            good = repr(value) in keys
            check(cand.loss == loss if good else cand.loss > loss, f"the loss of {value} is {cand.loss} instead of {loss}, feasible: {subset}", key="penalty")
        ch.state(name, kind, registration, form, workers, sorted(keys), repr(story))
        best = {repr(v): min(y for w, y in told if repr(w) == repr(v)) for v, _ in told if repr(v) in keys}
        for mode, mvalue in opt.current_bests.items():
            if any(np.isfinite(mvalue.get_estimation(mode)) for _ in [0]) or best:
                check(repr(mvalue.parameter.value) in keys, f"{name}: the {mode} best is {mvalue.parameter.value} after {story}, feasible: {subset}", key=f"tracked {name}")
        if best and (name in THOROUGH_SEARCH or kind in ("transition", "scalar")):  # others may sample again their recommendation
            rec = opt.recommend().value
            check(repr(rec) in keys, f"{name} recommends {rec} after {story}, feasible: {subset}", key=f"recommended {name}")
        if best:
            low = opt.current_bests["minimum"].get_estimation("minimum")
            check(low == min(best.values()), f"{name}: the minimum is {low} after {story}, feasible: {subset}", key=f"minimum {name}")


def half(value: Value) -> bool:
    """about half of any domain"""
    if isinstance(value, np.ndarray):
        return bool(value[0] <= value[-1])
    if isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], dict):
        return value[1]["x"] != "a"  # type: ignore
    return value[0] != 0  # type: ignore


def never(value: Value) -> bool:
    return False


def most(value: Value) -> bool:
    if isinstance(value, np.ndarray):
        return bool(value[0] <= 2 + abs(value[-1]))
    if isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], dict):
        return value[1]["y"] != 3  # type: ignore
    return value[0] + value[1] > 0  # type: ignore


FEASIBLE = {"half": half, "never": never, "most": most}


def every_run(name: str, kind: str, registration: str, asks: int, workers: int, form: str, where: str) -> tp.List[tp.Any]:
    param = c12.param(kind)
    feasible = FEASIBLE[where]
    con = Constraint(feasible, form)
    if registration == "before":
        param.register_cheap_constraint(con)
    with attempts(6 if where == "never" else 20):
        opt = optim.create(name, param, budget=40, num_workers=workers)
        opt.parametrization.random_state.seed(12)
        if registration == "after":
            opt.parametrization.register_cheap_constraint(con)
        sent: tp.List[tp.Any] = []
        story: tp.List[tp.Any] = []
        pending = []
        for k in range(asks):
            while len(pending) < opt.num_workers:
                cand = checked_ask(opt, [con], name, sent, story[-3:])
                pending.append(cand)
            cand = pending.pop(0)
            good = feasible(cand.value)
            loss = float(k * 3 % 5) - (100.0 if not good else 0.0)
            try:
                quiet(lambda: opt.tell(cand, loss), sent)
            except Exception as e:  # pylint: disable=broad-except
                check(False, f"{name}: tell {k} fails with {type(e).__name__}: {e}", key=f"tell {name}")
            story.append((snap(cand.value), loss, good))
            for mode, mvalue in opt.current_bests.items():
                if np.isfinite(mvalue.get_estimation(mode)):
                    check(feasible(mvalue.parameter.value), f"{name}: the {mode} best {mvalue.parameter.value} violates the constraint", key=f"tracked {name}")
        quiet(opt.recommend, sent)
    return story


def every(ch: Chooser, names: tp.List[str], kind: str, asks: int, workers: int, form: str, where: str, registrations: tp.Sequence[str]) -> None:
    name = ch.choose(names, "optimizer")
    registration = ch.choose(registrations, "registration")
    if name in optim.WITH_COBYLA or "NLOPT" in name:
        story = forked(lambda: every_run(name, kind, registration, asks, workers, form, where), 60.0)
    else:
        story = every_run(name, kind, registration, asks, workers, form, where)
    for k in range(len(story)):
        ch.state(name, kind, registration, workers, form, where, repr(story[: k + 1]))


def penalties(ch: Chooser, name: str, kind: str, steps: int, budget: tp.Optional[int]) -> None:
    """telling a violation has the effect of the penalized loss, and the more violated the more penalized"""
    opts = []
    for _ in range(2):
        opt = optim.create(name, c12.param(kind), budget=budget, num_workers=1)  # type: ignore
        opt.parametrization.random_state.seed(12)
        opts.append(opt)
    story = []
    sent: tp.List[tp.Any] = []
    for k in range(steps):
        cands = [quiet(o.ask, sent) for o in opts]
        check(snap(cands[0].value) == snap(cands[1].value), f"{name}: asks {cands[0].value} after violations and {cands[1].value} after the penalized losses {story}", key=f"penalized {name}")
        loss = ch.choose([1.0, -2.0], "loss")
        violation = ch.choose([None, [0.0, -1.0], [0.5, -1.0], 1.5], "violation")
        quiet(lambda: opts[0].tell(cands[0], loss, violation), sent)
        seen = cands[0].loss
        violated = violation is not None and bool(np.max(violation) > 0)
        check(seen > loss if violated else seen == loss, f"the loss {loss} becomes {seen} with violation {violation}", key="amount")
        quiet(lambda: opts[1].tell(cands[1], seen), sent)
        story.append((loss, violation, seen))
        ch.state(name, kind, repr(story))
        if violated:
            tracked = [m.parameter.uid for m in opts[0].current_bests.values()]
            check(cands[0].uid not in tracked, f"{name}: a violating candidate is tracked after {story}", key="tracked violation")
    finals = [quiet(o.ask, sent) for o in opts]
    check(snap(finals[0].value) == snap(finals[1].value), f"{name}: asks {finals[0].value} after violations and {finals[1].value} after the penalized losses {story}", key=f"penalized {name}")


def amounts(ch: Chooser, name: str, budget: tp.Optional[int]) -> None:
    """the penalty increases with the violation"""
    opt = optim.create(name, c12.param("array"), budget=budget, num_workers=1)  # type: ignore
    for k in range(ch.choose([0, 1, 4], "tells before")):
        opt.tell(opt.ask(), float(k))
    loss = ch.choose([0.5, 2.0, -2.0, 100.0], "loss")
    style = ch.choose([None, [1e5, 1.0, 0.5, 1.0, 0.5, 1.0], [10.0, 2.0, 1.0, 1.0, 0.0, 1.0]], "style")
    levels = [[0.0, 0.0], [0.1, 0.0], [0.1, 0.2], [1.0, 0.2], [1.0, 50.0]]
    grows = []
    for level in levels:
        copy = opt.copy() if hasattr(opt, "copy") else None
        cand = opt.parametrization.spawn_child(new_value=np.array([0.1, 0.2]))
        del copy
        saved = opt.num_tell
        opt.tell(cand, loss, level, penalty_style=style)
        grows.append((cand.loss - loss) / (1.0 if style is not None and style[4] == 0 else np.sqrt(1.0 + saved)))
        ch.state(name, saved, loss, repr(style), repr(level))
    check(grows[0] == 0, f"a penalty {grows[0]} without violation", key="no violation")
    if budget is None:
        for a, b in zip(grows, grows[1:]):
            check(b > a, f"penalties {grows} for violations {levels}", key="increase")


def cheap_amounts(ch: Chooser, budget: tp.Optional[int]) -> None:
    """float constraints: the penalty increases with the violation, with the number of asks, and sums over constraints"""
    param = ng.p.Scalar()
    number = ch.choose([1, 2], "constraints")

    def con(x: float) -> float:
        return 1.0 - x

    for _ in range(number):
        param.register_cheap_constraint(con)
    opt = optim.create("RandomSearch", param, budget=budget)  # type: ignore
    factor = ch.choose([1.0, 7.0], "factor")
    exponent = ch.choose([1.001, 1.5], "exponent")
    opt._constraints_manager.update(penalty_factor=factor, penalty_exponent=exponent)
    asks = ch.choose([0, 3], "asks")
    for _ in range(asks):
        opt.ask()
    loss = ch.choose([0.0, 3.0, -50.0], "loss")
    for x in (0.5, 1.0, 1.5, 4.0):
        cand = opt.parametrization.spawn_child(new_value=x)
        opt.tell(cand, loss)
        expected = loss + number * max(0.0, x - 1.0) * factor * exponent ** (asks / np.sqrt(1 if budget is None else budget))
        check(np.isclose(cand.loss, expected), f"the loss of {x} is {cand.loss} instead of {expected}", key="cheap amount")
        ch.state(number, factor, exponent, asks, loss, x)


# ---------------------------------------------------------------------------------------------------------------- tabu
class Congruence:
    def __init__(self, mode: str) -> None:
        self.mode = mode
        self.seen: tp.List[tp.Any] = []

    def image(self, value: Value) -> tp.Any:
        if self.mode == "identity":
            return value
        return np.sum(value) if not isinstance(value, tuple) or not isinstance(value[-1], dict) else value[0][0]

    def __call__(self, value: Value) -> tp.Any:
        out = self.image(value)
        self.seen.append(out)
        return out

    def __deepcopy__(self, memo: tp.Any) -> "Congruence":
        return self


def tabu_domain(kind: str) -> tp.Tuple[tp.Any, int]:
    if kind == "array":
        return ng.p.Array(init=[0.0, 1.0]).set_bounds(0, 1).set_integer_casting(), 4
    if kind == "dict":
        return ng.p.Dict(a=ng.p.Choice([0, 1]), b=ng.p.Array(init=[0.0]).set_bounds(0, 1).set_integer_casting()), 4
    param, values = domain(kind)
    return param, len(values)


def tabu(ch: Chooser, name: str, kind: str, length: int, ops: int, congruence: str, how: str, constrained: bool = False, workers: int = 2) -> None:
    param, size = tabu_domain(kind)
    spy = Congruence(congruence)
    param.tabu_congruence = spy
    feasible = None
    cons: tp.List[Constraint] = []
    if constrained:
        keep = ch.choose([0, 1, 2, 3], "infeasible")
        forbidden = repr(domain(kind)[1][keep])
        feasible = lambda v: repr(v) != forbidden  # noqa
        cons = [Constraint(feasible, "bool")]
        param.register_cheap_constraint(cons[0])
    if how == "parameter":
        param.specify_tabu_length(length)
        opt = optim.create(name, param, budget=50, num_workers=workers)
    else:
        config = {"mutation": how} if how != "annealing" else {"mutation": "discrete", "annealing": "Exp0.9"}
        opt = ng.optimizers.ParametrizedOnePlusOne(tabu_length=length, **config)(param, budget=50, num_workers=workers)
    opt.parametrization.random_state.seed(12 + ch.choose([0, 1], "seed"))
    recent: tp.Deque[str] = collections.deque(maxlen=length)
    pending: tp.List[tp.Any] = []
    told: tp.List[tp.Tuple[Value, float]] = []
    story: tp.List[tp.Any] = []
    sent: tp.List[tp.Any] = []
    for k in range(ops):
        if not pending or len(pending) < workers and ch.flag(f"ask {k}"):
            spy.seen.clear()
            for con in cons:
                con.seen.clear()
            before = opt.num_ask
            cand = quiet(opt.ask, sent)
            check(opt.num_ask == before + 1, f"{opt.num_ask - before} asks were counted for one", key="num_ask")
            pending.append(cand)
            mine = repr(spy.image(cand.value))
            seen = [repr(x) for x in spy.seen]
            story.append(("ask", cand.value))
            if feasible is None:
                fresh = [x for x in seen if x not in recent]
                if mine in recent:
                    check(not fresh, f"{name} asks {cand.value} again, though {fresh[:1]} was considered, after {story}", key=f"repeated {how}")
                    check(len(set(recent)) >= size - 1 or len(seen) >= 20, f"{name} asks {cand.value} again after {len(seen)} attempts only: {story}", key=f"attempts {how}")
                else:
                    recent.append(mine)
            else:
                check(feasible(cand.value) or not [v for c in cons for v in c.seen if feasible(v)], f"{name} asks {cand.value}, after {story}", key=f"infeasible {how}")
        else:
            cand = pending.pop(0)
            loss = ch.choose([2.0, 1.0], f"loss {k}") - 0.01 * len(told)
            opt.tell(cand, loss)
            told.append((cand.value, loss))
            story.append(("tell", cand.value, loss))
            if feasible is None or feasible(cand.value):
                low = opt.current_bests["minimum"].get_estimation("minimum")
                valid = [y for v, y in told if feasible is None or feasible(v)]
                check(low == min(valid), f"{name}: the minimum is {low} after {story}", key=f"minimum {how}")
                check(cand.loss == loss, f"the loss of {cand.value} is {cand.loss} after {story}", key="loss")
        ch.state(name, kind, length, congruence, how, repr(forbidden) if constrained else "", repr(story))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    c12.preload()
    deep = tier == "thorough"
    reg = ng.optimizers.registry
    sets = []
    kinds = ["choice", "pair", "instrumentation", "transition", "scalar"]
    forms = [("bool", "before"), ("float", "after"), ("two", "before"), ("edge", "before"), ("np.bool", "after")]
    for i, name in enumerate(["RandomSearch", "DiscreteOnePlusOne", "DE", "OnePlusOne", "TwoPointsDE", "DoubleFastGADiscreteOnePlusOne"]):
        for j, kind in enumerate(kinds):
            for k, (form, when) in enumerate(forms):
                if deep or k == (i + j) % 5:
                    sets.append(dict(name=name, kind=kind, ops=3, registration=when, form=form, max_trials=100 if deep or kind == "choice" and i < 3 else 40, subsets="all" if deep or kind == "choice" and i < 3 else "some"))
        if deep or i < 3:
            sets.append(dict(name=name, kind="choice", ops=4, registration="after", form="bool", max_trials=100 if deep else 20, workers=2))
            sets.append(dict(name=name, kind="pair", ops=3, registration="before", form="float", max_trials=100 if deep else 20, budget=None))
    for name in ["PSO", "CMAstd", "ES", "cGA", "NelderMead", "TBPSA", "LHSSearch", "QRandomSearch", "HammersleySearch", "SQP", "PortfolioDiscreteOnePlusOne"]:
        if name in reg:
            for kind in ["choice", "pair", "scalar"] if deep else ["pair"]:
                sets.append(dict(name=name, kind=kind, ops=3, registration="after", form="float", max_trials=40, losses=(1.0,)))
    for name in ["RandomSearch", "OnePlusOne", "DE"]:
        for trials in (2, 3, 4, 12):
            sets.append(dict(name=name, kind="choice", ops=3, registration="before", form="float", max_trials=trials, losses=(1.0,)))
    names = [n for n in optim.names(slow=False) if n not in optim.UNSTABLE | {"NGOptF5"}]
    light = [n for n in names if n not in optim.TWO_COBYLAS_LATER | optim.MEDIUM]
    both = ["before", "after"]
    ev = [dict(names=c, kind="array", asks=6, workers=1, form="float", where="half", registrations=["after"]) for c in optim.chunks(light, 32)]
    ev += [dict(names=c, kind="mixed", asks=4, workers=1, form="bool", where="never", registrations=["before"]) for c in optim.chunks(light, 32)]
    ev += [dict(names=c, kind="discrete", asks=8, workers=1, form="bool", where="most", registrations=["after"]) for c in optim.chunks(light, 32)]
    if deep:
        names = [n for n in names if n not in optim.TWO_COBYLAS_LATER]
        ev += [dict(names=c, kind=k, asks=14, workers=1, form="float", where=w, registrations=both) for k in ("array", "mixed") for w in FEASIBLE for c in optim.chunks(names, 64)]
        ev += [dict(names=c, kind=k, asks=14, workers=3, form="bool", where="half", registrations=both) for k in ("array", "discrete") for c in optim.chunks([n for n in light if n != "MultiDS"], 32)]
    pens = [n for n in ("CMAstd", "DE", "TwoPointsDE", "PSO", "ES", "RandomSearch", "TBPSA", "EMNA", "SPSA", "NelderMead", "cGA", "DiagonalCMA", "MultiScaleCMA", "FCMA", "RealSpacePSO", "LhsDE") if n in reg]
    pen = [dict(name=n, kind="array", steps=3 if deep or n in ("DE", "CMAstd", "PSO") else 2, budget=b) for n in pens for b in (30, None) if b or n in ("DE", "RandomSearch")]
    tabus = []
    for how in ("discrete", "lengler", "portfolio", "annealing"):
        for kind, congruence in [("choice", "identity"), ("pair", "identity"), ("pair", "sum"), ("array", "identity"), ("instrumentation", "identity"), ("dict", "identity"), ("transition", "identity")]:
            for length in (1, 2, 3, 6) if deep or how == "discrete" else (2,):
                tabus.append(dict(name="OnePlusOne", kind=kind, length=length, ops=7 + deep, congruence=congruence, how=how))
        tabus.append(dict(name="OnePlusOne", kind="pair", length=2, ops=6, congruence="identity", how=how, constrained=True))
    for name in ("RandomSearch", "DE", "OnePlusOne", "DiscreteOnePlusOne", "PSO"):
        for kind in ("choice", "array", "pair"):
            tabus.append(dict(name=name, kind=kind, length=2, ops=6 + deep, congruence="identity", how="parameter"))
    return {
        "feasible_sets": Scenario(feasible_sets, sets),
        "every": Scenario(every, ev, limit=120.0),
        "penalties": Scenario(penalties, pen),
        "amounts": Scenario(amounts, [dict(name=n, budget=b) for n in ("RandomSearch", "DE") for b in (None, 10)]),
        "cheap_amounts": Scenario(cheap_amounts, [dict(budget=b) for b in (None, 4, 100)]),
        "tabu": Scenario(tabu, tabus),
    }
