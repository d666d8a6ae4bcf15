"""C05: tracked bests and recommendation equal a recomputation from the full history of tells."""
import math
import typing as tp

import numpy as np
import nevergrad as ng
from mc.engine import Chooser
from mc.lib import check, vec
from mc.main import Scenario

RULE = (
    "an execution is a history of tells on the real optimizer; decisions: which point (already told ones, or one fresh point) gets which loss, "
    "as a fresh candidate. After every tell the bests of each criterion, the archive and the recommendation are compared to a recomputation "
    "from the list of all evaluations. A state is the map point -> evaluations."
)
ASSUMPTIONS = [
    "documented clipping: first evaluations above 5e20 (and NaN) count as 5e20, later evaluations of a point are clipped to +-1e10",
    "histories are shorter than the pruning threshold (see C06)",
]
CRITERIA = ["optimistic", "pessimistic", "average", "minimum"]


class Plain(ng.optimizers.base.Optimizer):
    def _internal_ask(self) -> tp.Any:
        return [0.25 + 0.5 * self.num_ask] * self.dimension


class Record:
    """Reference: all evaluations of one point"""

    def __init__(self) -> None:
        self.evals: tp.List[float] = []
        self.raw: tp.List[float] = []

    def add(self, loss: float) -> None:
        loss = 5e20 if not loss < 5e20 else loss
        self.raw.append(loss)
        self.evals.append(loss if not self.evals else min(1e10, max(-1e10, loss)))

    def estimate(self, name: str) -> float:
        n = len(self.evals)
        mean = math.fsum(self.evals) / n
        if name == "average":
            return mean
        if name == "minimum":
            return min(self.evals)
        var = 1e6
        if n > 1:
            square = math.fsum(y * y for y in self.evals) / n
            var = math.sqrt(n / (n - 1.0)) * (max(square, mean**2) - mean**2)
        delta = 0.1 * math.sqrt(var / (1 + n))
        return mean - delta if name == "optimistic" else mean + delta


def near(a: float, b: float, scale: float) -> bool:
    return abs(a - b) <= 1e-7 * max(1.0, scale)


def make(name: str, deterministic: bool, budget: tp.Optional[int]) -> tp.Any:
    param = ng.p.Array(shape=(2,))
    param.function.deterministic = deterministic
    if name.startswith("DE-"):
        cls: tp.Any = ng.families.DifferentialEvolution(recommendation=name[3:])
    else:
        cls = Plain if name == "Plain" else ng.optimizers.registry[name]
    opt = cls(param, budget=budget, num_workers=1)
    param.random_state.seed(12)
    return opt


def history(
    ch: Chooser,
    optimizer: str,
    points: int,
    losses: tp.List[float],
    depth: int,
    deterministic: bool = True,
    asked: bool = False,
    default_rule: bool = True,
    budget: tp.Optional[int] = 100,
    announced: tp.Optional[str] = None,  # criterion announced by the optimizer's own configuration
) -> None:
    opt = make(optimizer, deterministic, budget)
    ref: tp.Dict[tp.Tuple[float, ...], Record] = {}
    keys: tp.List[tp.Tuple[float, ...]] = []
    uids: tp.Dict[str, tp.Tuple[tp.Tuple[float, ...], float]] = {}
    for _ in range(depth):
        k = ch.choose(min(len(keys) + 1, points), "point")
        loss = ch.choose(losses, "loss")
        if k == len(keys) and asked:
            cand = opt.ask()
        else:
            value = np.array(keys[k]) if k < len(keys) else np.array([0.5 * k, 1.0 - k])
            cand = opt.parametrization.spawn_child(new_value=value)
        x = vec(cand.get_standardized_data(reference=opt.parametrization))
        if k == len(keys):
            if x in keys:
                return  # the optimizer asked a known point: covered by the other branch
            keys.append(x)
        opt.tell(cand, loss)
        rec = ref.setdefault(x, Record())
        rec.add(loss)
        uids[cand.uid] = (x, rec.raw[-1])
        scale = max(abs(v) for r in ref.values() for v in r.evals)
        ch.state(tuple(tuple(ref[y].evals) for y in keys))
        # archive
        check(len(opt.archive) == len(ref), f"{len(opt.archive)} points remembered instead of {len(ref)}")
        for y, r in ref.items():
            mv = opt.archive[np.array(y)]
            check(mv.count == len(r.evals), f"{mv.count} evaluations remembered instead of {len(r.evals)}")
            check(vec(mv.x) == y, "a record is attached to another point")
            for name in CRITERIA:
                check(
                    near(mv.get_estimation(name), r.estimate(name), scale),
                    f"{name} estimate {mv.get_estimation(name)} instead of {r.estimate(name)} after {r.evals}",
                )
        # bests
        for name in CRITERIA:
            best = opt.current_bests[name]
            bx = vec(best.x)
            check(best.parameter.uid in uids, f"{name} best is not a told candidate")
            check(bx in ref, f"{name} best is not a told point")
            optimum = min(r.estimate(name) for r in ref.values())
            check(
                near(ref[bx].estimate(name), optimum, scale),
                f"{name} best has estimate {ref[bx].estimate(name)} but the best is {optimum}: "
                f"{ {y: r.evals for y, r in ref.items()} }",
            )
            check(near(best.get_estimation(name), optimum, scale), f"the record of the {name} best is stale")
        # recommendation
        if default_rule:
            recom = opt.provide_recommendation()
            criterion = announced or ("minimum" if deterministic else "pessimistic")
            check(recom.uid in uids, "the recommendation is not a told candidate")
            y, told = uids[recom.uid]
            check(vec(recom.get_standardized_data(reference=opt.parametrization)) == y, "recommended value was changed")
            optimum = min(r.estimate(criterion) for r in ref.values())
            check(near(ref[y].estimate(criterion), optimum, scale), f"recommendation is not the {criterion} best")
            check(recom.loss == told, f"loss of the recommendation is {recom.loss}, told {told}")
            if deterministic and announced is None:
                check(
                    min(ref[y].raw) == told,
                    f"the recommended candidate has loss {told} but its point got {ref[y].raw}",
                )
            check(opt.recommend().uid == recom.uid, "recommend and provide_recommendation differ")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    inf, nan = float("inf"), float("nan")
    base = []
    for det in (True, False):
        base.append(dict(optimizer="Plain", points=2, losses=[1.0, 0.0, 2.0], depth=5 if not deep else 7, deterministic=det))
        base.append(dict(optimizer="Plain", points=3, losses=[0.0, 1.0], depth=7 if deep else 6, deterministic=det))
        base.append(dict(optimizer="Plain", points=3, losses=[0.0, 5.0, -3.0, 2000.0], depth=5 if deep else 4, deterministic=det))
        base.append(dict(optimizer="Plain", points=3, losses=[0.0, inf, nan, 1e30], depth=5 if deep else 4, deterministic=det))
        base.append(dict(optimizer="Plain", points=5, losses=[0.0, 1.0, -1.0], depth=5, deterministic=det, asked=True))
        base.append(dict(optimizer="Plain", points=2, losses=[0.0, 1000.0, 400.0], depth=6, deterministic=det, budget=None))
    fams = []
    for name in ("DE", "PSO", "RandomSearch", "ES", "LHSSearch", "cGA", "DiscreteDE", "RotatedTwoPointsDE"):
        if name in ng.optimizers.registry:
            for det in (True, False):
                fams.append(dict(optimizer=name, points=3, losses=[1.0, 0.0, inf], depth=4, deterministic=det, asked=True))
                if "DE" in name:
                    fams[-1]["announced"] = "optimistic"  # default of DifferentialEvolution(recommendation=...)
    for name in ("pessimistic", "mean"):
        fams.append(dict(optimizer=f"DE-{name}", points=3, losses=[1.0, 0.0, 3.0], depth=4, deterministic=False, asked=True))
        fams[-1]["announced"] = name.replace("mean", "average")
    own_rule = [
        dict(optimizer=name, points=3, losses=[1.0, 0.0, 2.0], depth=4, asked=True, default_rule=False)
        for name in ("OnePlusOne", "CMA", "NGOpt", "ChainNaiveTBPSACMAPowell", "ParaPortfolio", "SplitQODE", "TBPSA")
        if name in ng.optimizers.registry
    ]
    return {"base": Scenario(history, base), "families": Scenario(history, fams), "own_rule": Scenario(history, own_rule)}
