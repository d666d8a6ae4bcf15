"""C13: every asked or recommended point lies in the search domain."""
import functools
import math
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from mc import optim
from mc.checks import c12
from mc.engine import Chooser
from mc.lib import check, forked, snap
from mc.main import Scenario

RULE = (
    "an execution drives one optimizer on one domain through a history of asks, tells (and suggestions) where the explorer decides the losses; all the asked candidates and the recommendation in each state "
    "are compared to an independent description of the domain (bounds, types, integers, options, structure). Every registered optimizer is driven on every domain with patterns of losses, representative "
    "optimizers with all sequences of losses up to a bound. A state is the history of an optimizer on a domain."
)
ASSUMPTIONS = [
    "bounds implemented by constraints (method='constraint') are only as strong as cheap constraints (C18)",
    "unbounded logarithmic variables may overflow or underflow (only their type and sign are checked)",
    "optimizers which need unavailable or much slower dependencies are skipped (see mc/optim.py), as well as those which block because of scipy's COBYLA (C14)",
]

Valid = tp.Callable[[tp.Any], tp.Optional[str]]


# ------------------------------------------------------------------------------------------------ descriptions of domains
def real(lower: float = -math.inf, upper: float = math.inf, integer: bool = False, kind: tp.Any = float) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer) if integer else (float, np.floating)):
            return f"{x!r} has type {type(x).__name__}"
        if not math.isfinite(x):
            return f"{x!r} is not finite"
        if not lower <= x <= upper:
            return f"{x!r} is not in [{lower}, {upper}]"
        return None

    return valid


def array(shape: tp.Tuple[int, ...], lower: tp.Any = -np.inf, upper: tp.Any = np.inf, integer: bool = False) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        if not isinstance(x, np.ndarray):
            return f"{x!r} has type {type(x).__name__}"
        if x.shape != shape:
            return f"{x!r} has shape {x.shape}"
        if integer and not np.issubdtype(x.dtype, np.integer) or not integer and not np.issubdtype(x.dtype, np.floating):
            return f"{x!r} has dtype {x.dtype}"
        if not np.isfinite(x).all():
            return f"{x!r} is not finite"
        if not ((x >= np.asarray(lower)) & (x <= np.asarray(upper))).all():
            return f"{x!r} is not in [{lower}, {upper}]"
        return None

    return valid


def among(*options: tp.Any) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        if not any(type(x) is type(o) and x == o for o in options):
            return f"{x!r} is not in {options}"
        return None

    return valid


def either(*options: Valid) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        errors = [o(x) for o in options]
        return None if None in errors else "; ".join(map(str, errors))

    return valid


def both(one: Valid, two: Valid) -> Valid:
    return lambda x: one(x) or two(x)


def sequence(*items: Valid) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        if not isinstance(x, tuple) or len(x) != len(items):
            return f"{x!r} is not a tuple of {len(items)} elements"
        return next((e for e in (i(v) for i, v in zip(items, x)) if e), None)

    return valid


def mapping(**items: Valid) -> Valid:
    def valid(x: tp.Any) -> tp.Optional[str]:
        if not isinstance(x, dict) or set(x) != set(items):
            return f"{x!r} has not keys {sorted(items)}"
        return next((f"{k}: {e}" for k, e in ((k, i(x[k])) for k, i in items.items()) if e), None)

    return valid


def positive(x: tp.Any) -> tp.Optional[str]:
    """unbounded exponentials can overflow"""
    return None if isinstance(x, float) and x >= 0 else f"{x!r} is not a positive float"


def domain(kind: str) -> tp.Tuple[tp.Any, Valid]:
    p = ng.p
    if kind.startswith("array "):
        method = kind.split()[1]
        return p.Array(init=[0.5, 0.0, -1.0]).set_bounds([0.0, -2.0, -1.0], [1.0, 0.0, 5.0], method=method), array((3,), [0.0, -2.0, -1.0], [1.0, 0.0, 5.0])
    if kind == "full":
        return p.Array(init=[[0.5, 0.0]]).set_bounds(-1.0, 2.0, method="clipping", full_range_sampling=True).set_mutation(sigma=20.0), array((1, 2), -1.0, 2.0)
    if kind == "halves":
        par = p.Tuple(p.Scalar(init=3.0).set_bounds(lower=2.5), p.Scalar().set_bounds(upper=0.25, method="clipping"), p.Array(init=[0.0, 1.0]).set_bounds(lower=[-0.5, 0.5]))
        return par, sequence(real(2.5), real(upper=0.25), array((2,), [-0.5, 0.5]))
    if kind == "integers":
        par = p.Instrumentation(
            p.Scalar(lower=-1, upper=2).set_integer_casting(),
            p.Scalar(init=3).set_integer_casting(),
            a=p.Array(init=[0, 7]).set_bounds(-3, 7).set_integer_casting(),
            r=p.Array(init=[0.0, 1.0]).set_bounds(-0.6, 1.6).set_integer_casting(),
        )
        return par, sequence(
            sequence(real(-1, 2, integer=True), real(integer=True)),
            mapping(a=array((2,), -3, 7, integer=True), r=array((2,), 0, 1, integer=True)),
        )
    if kind == "logs":
        par = p.Dict(a=p.Log(lower=0.01, upper=100), b=p.Log(init=2.0), c=p.Log(init=8.0, exponent=2.0).set_bounds(lower=0.125, upper=64.0), d=p.Log(lower=1, upper=1000).set_integer_casting())
        return par, mapping(a=real(0.01, 100), b=positive, c=real(0.125, 64), d=real(1, 1000, integer=True))
    if kind == "choices":
        par = p.Instrumentation(
            p.Choice(["a", 1, None]),
            p.TransitionChoice([0.5, "b", (1, 2)]),
            r=p.Choice([0, 1, 2], repetitions=3),
            t=p.TransitionChoice(range(4), repetitions=2),
            d=p.Choice(["x", "y"], deterministic=True),
        )
        return par, sequence(
            sequence(among("a", 1, None), among(0.5, "b", (1, 2))),
            mapping(r=sequence(*[among(0, 1, 2)] * 3), t=sequence(*[among(0, 1, 2, 3)] * 2), d=among("x", "y")),
        )
    if kind == "nested":
        par = p.Instrumentation(
            p.Choice([p.Scalar(lower=-1, upper=1), p.Tuple("c", p.Array(shape=(2,)).set_bounds(0, 1)), "none"]),
            lr=p.Log(lower=0.1, upper=10),
            sub=p.Dict(n=p.TransitionChoice([p.Scalar(lower=1, upper=3).set_integer_casting(), 12]), k="constant", e=p.Tuple(p.Scalar(lower=0, upper=1), 3)),
        )
        return par, sequence(
            sequence(either(real(-1, 1), sequence(among("c"), array((2,), 0, 1)), among("none"))),
            mapping(lr=real(0.1, 10), sub=mapping(n=either(real(1, 3, integer=True), among(12)), k=among("constant"), e=sequence(real(0, 1), among(3)))),
        )
    if kind == "operations":
        par = p.Tuple(2.0 * p.Scalar(lower=-1, upper=1) + 1.0, p.Scalar(lower=0, upper=2) ** 2)
        return par, sequence(real(-1, 3), real(0, 4))
    if kind == "free":
        return p.Array(shape=(2,)), array((2,))
    if kind == "discrete":
        return p.Choice([0, 1, 2], repetitions=3), sequence(*[among(0, 1, 2)] * 3)
    if kind == "integer array":
        return p.Array(init=[0, 1, -1]).set_bounds(-1, 1).set_integer_casting(), array((3,), -1, 1, integer=True)
    if kind == "scalar":
        return p.Scalar(lower=-1.0, upper=2.0), real(-1.0, 2.0)
    raise ValueError(kind)


DOMAINS = ["array bouncing", "array clipping", "array arctan", "array tanh", "array gaussian", "full", "halves", "integers", "logs", "choices", "nested", "operations", "free", "discrete", "integer array", "scalar"]


def history(name: str, kind: str, pattern: tp.Tuple[str, str], number: int, budget: int, workers: int) -> tp.List[tp.Any]:
    par, valid = domain(kind)
    run = optim.Run(name, par, budget, workers)
    steps = []

    def judge(cand: tp.Any, what: str) -> None:
        error = valid(cand.value)
        check(error is None, f"{name} {what} {cand.value}: {error}, after losses {[v for _, v in run.told]}", key=f"{what} {name}")
        check(sequence(*[lambda x: None] * len(cand.args))(cand.args) is None and isinstance(cand.kwargs, dict), f"wrong arguments {cand.args} {cand.kwargs}", key="arguments")

    for k in range(number):
        try:
            judge(run.ask(), "asks")
            while len(run.pending) < run.opt.num_workers and run.opt.num_ask < number:
                judge(run.ask(), "asks")
            cand = run.pending[0]
            steps.append(snap(cand.value))
            run.tell(optim.pattern_loss(pattern, k, number), -1 if k % 3 == 2 else 0)
            judge(cand, "modifies")
            if k in (0, 1, number // 2, number - 1):
                judge(run.opt.recommend(), "recommends")
        except Exception as e:  # pylint: disable=broad-except
            check(False, f"{name}: step {k} fails on {kind} with {type(e).__name__}: {e} after losses {[v for _, v in run.told]}", key=f"fails {name}")
        if run.opt.num_ask >= budget:
            break
    return steps


def every(ch: Chooser, names: tp.List[str], kinds: tp.List[str], patterns: tp.List[tp.Tuple[str, str]], number: int, budget: int, workers: int) -> None:
    name = ch.choose(names, "optimizer")
    kind = ch.choose(kinds, "domain")
    pattern = ch.choose(patterns, "pattern")
    fn = functools.partial(history, name, kind, pattern, number, budget, workers)
    steps = forked(fn, 60.0) if name in optim.WITH_COBYLA or "NLOPT" in name else fn()
    for k in range(len(steps)):
        ch.state(name, kind, pattern, workers, steps[: k + 1])


def sequences(ch: Chooser, name: str, kind: str, depth: int, workers: int, losses: tp.Sequence[float]) -> None:
    par, valid = domain(kind)
    run = optim.Run(name, par, 40, workers)
    story: tp.List[tp.Any] = []
    for k in range(depth):
        ops = (["ask"] if len(run.pending) < run.opt.num_workers else []) + (["tell"] if run.pending else []) + (["suggest"] if k == 1 else [])
        op = ch.choose(ops, f"operation {k}")
        if op == "ask":
            cand = run.ask()
            check(valid(cand.value) is None, f"{name} asks {cand.value}: {valid(cand.value)}, after {story}", key=f"asks {name}")
            story.append(("ask", cand.value))
        elif op == "suggest":
            sample = par.sample()
            check(valid(sample.value) is None, f"sample {sample.value}: {valid(sample.value)}", key="sample")
            run.opt.suggest(*sample.args, **sample.kwargs)
            story.append(("suggest", sample.value))
        else:
            loss = ch.choose(losses, f"loss {k}")
            try:
                run.tell(loss, -1 if k % 2 else 0)
            except errors.TellNotAskedNotSupportedError:  # of a suggestion
                return
            story.append(("tell", loss))
        ch.state(name, kind, workers, repr(story))
        rec = run.opt.recommend()
        check(valid(rec.value) is None, f"{name} recommends {rec.value}: {valid(rec.value)}, after {story}", key=f"recommends {name}")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    c12.preload()
    deep = tier == "thorough"
    names = [n for n in optim.names(slow=False) if n not in optim.UNSTABLE | optim.TWO_COBYLAS_LATER | {"NGOptF5"}]
    light = [n for n in names if n not in optim.MEDIUM]
    short = [("normal", "zero"), ("after", "-huge")] if not deep else [("normal", "zero"), ("all", "inf"), ("odd", "nan"), ("after", "-huge"), ("all", "zero")]
    others = [d for d in DOMAINS if d not in ("nested", "integers")]
    # these dependencies refuse one variable, or more than 10
    light = [n for n in light if n not in {"PymooCMAES", "PymooBIPOP", "NLOPT_GN_AGS"}]
    ev = [dict(names=c, kinds=["nested", "integers", others[k % 14], others[(k + 5) % 14]], patterns=short[:1], number=7, budget=30, workers=1) for k, c in enumerate(optim.chunks(light, 42))]
    if deep:
        names = [n for n in names if n not in {"PymooCMAES", "PymooBIPOP", "NLOPT_GN_AGS"}]
        # see C16 for these portfolios of sequential optimizers
        many = [n for n in light if n not in ("MultiDS", "NGDSRW")]
        ev += [dict(names=c, kinds=[k], patterns=short, number=14, budget=50, workers=w) for k in DOMAINS for w in (1, 3) for c in optim.chunks(names if w == 1 else many, 24)]
    seqs = []
    reps = ["OnePlusOne", "DE", "PSO", "CMAstd", "NelderMead", "RandomSearch", "TBPSA", "ES", "SPSA", "DiagonalCMA", "LhsDE", "VoronoiDE", "SQP", "EMNA", "DiscreteOnePlusOne", "RealSpacePSO", "NGOptBase", "MetaModel", "EDA", "cGA", "MEDA", "DiscreteLenglerOnePlusOne", "RotatedTwoPointsDE", "AvgMetaRecenteringNoHull"]
    for k, name in enumerate(n for n in reps if n in ng.optimizers.registry):
        for kind in DOMAINS if deep else [DOMAINS[k % 16], DOMAINS[(3 * k + 4) % 16], "integers", "array bouncing"]:
            seqs.append(dict(name=name, kind=kind, depth=7 if deep else 6 if kind.startswith("array") else 5, workers=2, losses=(1.0, -3e11, float("inf"))))
    lon = [dict(names=[n], kinds=[kind], patterns=[("normal", "zero"), ("odd", "-huge")], number=60 if deep else 40, budget=70, workers=w) for n in reps if n in ng.optimizers.registry for kind in (DOMAINS if deep else ["array bouncing", "integers"]) for w in ((1, 3) if deep else (1,))]
    return {"every": Scenario(every, ev, limit=120.0), "sequences": Scenario(sequences, seqs), "long": Scenario(every, lon, limit=120.0)}
