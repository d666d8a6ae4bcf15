"""C17: abnormal losses never break an optimizer nor win."""
import itertools
import typing as tp

import numpy as np
import nevergrad as ng
from mc import optim
from mc.checks import c12
from mc.engine import Chooser
from mc.lib import check, forked, snap
from mc.main import Scenario

RULE = (
    "an execution drives one optimizer through one history of asks and tells where the explorer decides the losses (normal, tied, NaN, infinite, huge) and for some scenarios the order of the "
    "operations; every registered optimizer is driven through histories where abnormal losses have every pattern of a list, and representative optimizers through all the sequences of losses up to the "
    "bound. Any exception, undefined proposal, or recommendation of a point with abnormal losses only is a violation. A state is the history of an optimizer."
)
ASSUMPTIONS = [
    "a budget is provided, and not exceeded",
    "optimizers which need unavailable or much slower dependencies are skipped (see mc/optim.py), as well as those which block because of scipy's COBYLA (C14)",
]


def bad(loss: tp.Any) -> bool:
    x = float(np.ravel(loss)[0])
    return not x < 5e20


def finite(value: tp.Any) -> bool:
    if isinstance(value, (tuple, list)):
        return all(finite(v) for v in value)
    if isinstance(value, dict):
        return all(finite(v) for v in value.values())
    if isinstance(value, (float, np.ndarray)):
        return bool(np.isfinite(value).all())
    return True


def recommendation(run: optim.Run, kind: str) -> None:
    name = run.name
    rec = run.opt.recommend()
    check(finite(rec.value), f"{name} recommends {rec.value}", key=f"finite {name}")
    if not run.told or all(bad(v) for _, v in run.told):
        return
    # on discrete domains, averages of iterates can coincide with points which have been told
    mine = [v for c, v in run.told if c is rec or c.uid == rec.uid or snap(c.value) == snap(rec.value)]
    if kind == "array" and mine and all(bad(v) for v in mine):
        check(False, f"{name} recommends {rec.value} whose losses are {mine}, among {[v for _, v in run.told]}", key=f"recommended {name}")
    bests = [run.opt.current_bests[k].get_estimation(k) for k in ("minimum", "pessimistic", "average", "optimistic")]
    check(not any(np.isnan(b) for b in bests), f"undefined current bests {bests}", key=f"bests {name}")
    best = min(v for _, v in run.told if not bad(v))
    # repeated evaluations of a point are truncated
    check(bests[0] <= max(best, -1e10), f"{name}: the minimum is {bests[0]} after {[v for _, v in run.told]}", key=f"minimum {name}")


def history(name: str, kind: str, pattern: tp.Tuple[str, str], number: int, budget: int, workers: int) -> tp.Any:
    run = optim.Run(name, c12.param(kind), budget, workers)
    steps = []
    for k in range(number):
        try:
            cand = run.ask()
            while len(run.pending) < run.opt.num_workers and run.opt.num_ask < number:
                run.ask()
        except Exception as e:  # pylint: disable=broad-except
            check(False, f"{name}: ask {k} fails with {type(e).__name__}: {e} after losses {[v for _, v in run.told]}", key=f"ask {name}")
        check(finite(cand.value), f"{name} proposes {cand.value} after losses {[v for _, v in run.told]}", key=f"proposal {name}")
        loss = optim.pattern_loss(pattern, k, number)
        try:
            run.tell(loss, -1 if k % 3 == 2 else 0)
        except Exception as e:  # pylint: disable=broad-except
            check(False, f"{name}: telling {loss} fails with {type(e).__name__}: {e} after losses {[v for _, v in run.told]}", key=f"tell {name}")
        steps.append(snap(cand.value))
        if run.opt.num_ask >= budget:
            break
        if k in (0, 1, number // 2):
            recommendation(run, kind)
    recommendation(run, kind)
    return steps


def every(ch: Chooser, names: tp.List[str], kind: str, patterns: tp.List[tp.Tuple[str, str]], number: int, budget: int, workers: int) -> None:
    name = ch.choose(names, "optimizer")
    pattern = ch.choose(patterns, "pattern")
    if name in optim.WITH_COBYLA or "NLOPT" in name:
        steps = forked(lambda: history(name, kind, pattern, number, budget, workers), 60.0)
    else:
        steps = history(name, kind, pattern, number, budget, workers)
    for k in range(len(steps)):
        ch.state(name, kind, pattern, workers, steps[: k + 1])


def sequences(ch: Chooser, name: str, kind: str, depth: int, losses: tp.List[float], prefix: int = 0, workers: int = 1) -> None:
    """all the sequences of losses"""
    run = optim.Run(name, c12.param(kind), 40, workers)
    seq: tp.List[float] = []
    for k in range(prefix):
        run.ask()
        run.tell(optim.NORMAL[k % 8])
    for k in range(depth):
        cand = run.ask()
        if workers > 1 and k % 2 == 0:
            run.ask()
        check(finite(cand.value), f"{name} proposes {cand.value} after {seq}", key=f"proposal {name}")
        loss = ch.choose(losses, f"loss {k}")
        seq.append(loss)
        run.tell(loss, -1 if k % 2 else 0)
        ch.state(name, kind, workers, prefix, [repr(x) for x in seq])
    recommendation(run, kind)
    cand = run.ask()
    check(finite(cand.value), f"{name} proposes {cand.value} after {seq}", key=f"proposal {name}")


FORMS: tp.Dict[str, tp.Callable[[float], tp.Any]] = {
    "float": float,
    "np.float64": np.float64,
    "np.float32": np.float32,
    "0d": np.array,
    "list": lambda x: [x],
    "tuple": lambda x: (x,),
    "array": lambda x: np.array([x]),
    "float32 array": lambda x: np.array([x], dtype=np.float32),
    "matrix": lambda x: np.array([[x]]),
    "int": lambda x: int(x) if abs(x) < 1e19 else x,
    "int list": lambda x: [int(x)] if abs(x) < 1e19 else [x],
    "int array": lambda x: np.array([int(x)]) if abs(x) < 1e18 else np.array([x]),
    "bool": lambda x: bool(x) if x in (0, 1) else x,
}


def forms(ch: Chooser, name: str, first: str, depth: int) -> None:
    """all the ways to give a loss have the same effect as a float"""
    runs = [optim.Run(name, c12.param("array"), 20, 1) for _ in range(2)]
    seq = []
    for k in range(depth):
        form = ch.choose(list(FORMS), f"form {k}") if k else first
        loss = ch.choose([1.0, 3.0, float("nan"), float("inf"), -float("inf"), 1e30, -2.0], f"loss {k}")
        seq.append((form, repr(loss)))
        cands = [r.ask() for r in runs]
        check(snap(cands[0].value) == snap(cands[1].value), f"different points after {seq}", key=f"ask {form}")
        runs[0].tell(loss)
        runs[1].tell(FORMS[form](loss))
        ch.state(name, seq)
        a, b = [[r.opt.current_bests[x].get_estimation(x) for x in ("minimum", "pessimistic", "average")] for r in runs]
        check(np.allclose(a, b, rtol=1e-6), f"{a} and {b} after {seq}", key=f"bests {form}")
        check(np.isclose(cands[0].loss, cands[1].loss), f"losses {cands[0].loss} and {cands[1].loss}", key=f"loss {form}")
    recs = [r.opt.recommend() for r in runs]
    check(snap(recs[0].value) == snap(recs[1].value), f"different recommendations after {seq}", key="recommendation")


def multiobjective(ch: Chooser, name: str, depth: int) -> None:
    """vectors of losses with abnormal components"""
    run = optim.Run(name, c12.param("array"), 30, 1)
    run.opt.tell(ng.p.MultiobjectiveReference(), [10.0, 10.0]) if ch.choose([True, False], "reference") else None
    vectors: tp.List[tp.Tuple[float, float]] = [(1.0, 2.0), (2.0, 1.0), (3.0, 3.0)]
    nan, inf = float("nan"), float("inf")
    vectors += [(nan, 1.0), (1.0, inf), (inf, inf), (nan, nan), (1e300, 1.0), (-1e300, 1.0)]
    seq = []
    for k in range(depth):
        cand = run.ask()
        check(finite(cand.value), f"{name} proposes {cand.value} after {seq}", key=f"proposal {name}")
        loss = ch.choose(vectors, f"loss {k}")
        seq.append(loss)
        run.tell(list(loss))
        ch.state(name, repr(seq))
    good = [v for v in seq if all(abs(x) < 5e20 for x in v)]
    front = [tuple(c.losses) for c in run.opt.pareto_front()]
    check(len(front) > 0, f"empty front after {seq}", key="empty")
    for v in front:
        for w in seq:
            dominated = all(y <= x for x, y in zip(v, w)) and any(y < x for x, y in zip(v, w))
            check(not dominated, f"{v} is on the front though {w} dominates it", key=f"front {name}")
    for w in good:
        if not any(x != w and all(b <= a for a, b in zip(w, x)) for x in seq):
            check(w in front, f"{w} is missing on the front {front} after {seq}", key=f"missing {name}")


def patterns(wheres: tp.Sequence[str], whats: tp.Sequence[str]) -> tp.List[tp.Tuple[str, str]]:
    return list(itertools.product(wheres, whats))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    c12.preload()
    deep = tier == "thorough"
    names = [n for n in optim.names(slow=False) if n not in optim.UNSTABLE | {"NGOptF5"}]
    heavy = {"SQOPSODCMA20bar", "PolyCMA", "PolyLN", "NGOptSingle25", "NGOptSingle16", "NGOptSingle9", "TripleCMA", "SQOPSODCMA20"}
    light = [n for n in names if n not in heavy]
    medium = [n for n in light if n not in optim.MEDIUM | optim.WITH_COBYLA]
    allp = patterns(["all", "odd", "first", "after", "before", "but one", "sparse", "second"], list(optim.ABNORMAL))
    few = [("all", "nan"), ("odd", "-inf"), ("after", "inf"), ("first", "-huge")]
    cfgs = [dict(names=c, kind="array", patterns=few, number=12, budget=60, workers=1) for c in optim.chunks(light, 48)]
    cfgs += [dict(names=c, kind="array", patterns=[("all", "zero"), ("odd", "nan")], number=12, budget=60, workers=1) for c in optim.chunks(sorted(heavy & set(names)), 8)]
    cfgs += [dict(names=c, kind="array", patterns=allp if deep else allp[::5], number=12, budget=60, workers=3) for c in optim.chunks([n for n in medium if n != "MultiDS"], 48)]
    long = [n for n in medium if n not in optim.TWO_COBYLAS_LATER]
    cfgs += [dict(names=c, kind="array", patterns=allp if deep else [("all", "-inf"), ("odd", "nan"), ("sparse", "inf")], number=48, budget=50, workers=1) for c in optim.chunks(long, 48)]
    if deep:
        for kind in ("mixed", "discrete", "bounded"):
            cfgs += [dict(names=c, kind=kind, patterns=few + [("odd", "nan"), ("all", "zero")], number=20, budget=60, workers=1) for c in optim.chunks(long + sorted(optim.MEDIUM & set(light) - optim.TWO_COBYLAS_LATER), 48)]
        cfgs += [dict(names=c, kind="array", patterns=allp, number=25, budget=30, workers=1) for c in optim.chunks([n for n in light if n not in optim.TWO_COBYLAS_LATER], 96)]
    families = ["OnePlusOne", "DE", "PSO", "CMA", "TBPSA", "RandomSearch", "LHSSearch", "cGA", "ES", "NelderMead", "SPSA", "EMNA", "EDA", "PCEDA", "OptimisticNoisyOnePlusOne",
                "DiscreteOnePlusOne", "Portfolio", "NoisyBandit", "NGOpt", "SQP", "NaiveTBPSA", "DiagonalCMA", "RecombiningPortfolioOptimisticNoisyDiscreteOnePlusOne", "MetaModel", "AdaptiveDiscreteOnePlusOne"]  # fmt: skip
    families = [n for n in families if n in ng.optimizers.registry]
    nan, inf = float("nan"), float("inf")
    alphabet = [1.0, nan, inf, -inf, 0.5] if not deep else [1.0, nan, inf, -inf, 0.5, 1e300, -1e300]
    slow = {"CMA", "NGOpt", "MetaModel", "SQP", "DiagonalCMA", "Portfolio", "PCEDA", "NelderMead"}
    seqs = [dict(name=n, kind="array", depth=(4 if n not in slow else 3) + deep, losses=alphabet) for n in families]
    seqs += [dict(name=n, kind=k, depth=3, losses=alphabet) for n in families if n not in slow for k in ("discrete", "mixed")]
    seqs += [dict(name=n, kind="array", depth=3, losses=alphabet, workers=3) for n in families if not ng.optimizers.registry[n].no_parallelization and n not in slow]
    seqs += [dict(name=n, kind="array", depth=2, losses=alphabet, prefix=p) for n in families for p in ((4, 12, 30) if deep else (6, 30))]
    multi = ["OnePlusOne", "DE", "RandomSearch", "NGOpt", "CMA", "PSO"] if deep else ["OnePlusOne", "DE", "RandomSearch"]
    return {
        "every": Scenario(every, cfgs, limit=120.0),
        "sequences": Scenario(sequences, seqs),
        "forms": Scenario(forms, [dict(name=n, first=f, depth=2 if deep or n == "OnePlusOne" else 1) for n in ("OnePlusOne", "DE", "RandomSearch", "TBPSA") for f in FORMS]),
        "multiobjective": Scenario(multiobjective, [dict(name=n, depth=4 if deep else 3) for n in multi]),
    }
