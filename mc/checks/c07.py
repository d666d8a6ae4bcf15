"""C07: the Pareto front is exactly the set of the non-dominated told points."""
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import HypervolumePareto
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution is a history of multi-objective tells (all sequences of loss vectors of a grid up to the depth), on the front object and on "
    "real optimizers, with given or automatic upper bounds, followed by every subset request. The front is compared after each tell to the brute "
    "force non-dominated set. A state is the sequence of told vectors."
)
ASSUMPTIONS = [
    "points over the upper bounds are documented as pointless: only those that are told while the automatic bounds are set up, or that are "
    "within the bounds, are required in the front; the others may be in it or not",
    "finite losses",
]
Vector = tp.Tuple[float, ...]


def dominates(a: Vector, b: Vector) -> bool:
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def non_dominated(vectors: tp.Iterable[Vector]) -> tp.Set[Vector]:
    vs = set(vectors)
    return {v for v in vs if not any(dominates(w, v) for w in vs)}


def check_front(front: tp.Any, told: tp.Dict[str, Vector], inside: tp.List[Vector]) -> None:
    uids = [c.uid for c in front]
    check(len(set(uids)) == len(uids), "a candidate appears twice in the front")
    check(all(u in told for u in uids), "the front has a candidate which was not told")
    for c in front:
        check(tuple(float(v) for v in c.losses) == told[c.uid], f"losses {c.losses} of a candidate instead of {told[c.uid]}")
    vectors = {told[u] for u in uids}
    for v in vectors:
        check(not any(dominates(w, v) for w in inside), f"{v} is in the front but dominated among {inside}")
        check(not any(dominates(w, v) for w in vectors), f"{v} is in the front but dominated by another member {vectors}")
    missing = non_dominated(inside) - vectors
    check(not missing, f"{sorted(missing)} not in the front after {list(told.values())}")


def check_subsets(ch: Chooser, front: tp.List[tp.Any], get: tp.Callable[..., tp.Any], volume: bool) -> None:
    members = {c.uid for c in front}
    for subset in ["random", "loss-covering", "EPS", "domain-covering"] + (["hypervolume"] if volume else []):
        for size in range(1, len(front) + 2):
            out = [c.uid for c in get(size=size, subset=subset)]
            check(len(out) <= size, f"{len(out)} candidates for a subset of size {size} ({subset})")
            check(len(out) == min(size, len(front)), f"only {len(out)} candidates while {size} were requested of {len(front)}")
            check(len(set(out)) == len(out), f"repetition in the {subset} subset of size {size} of {len(front)}")
            check(set(out) <= members, f"{subset} subset has a candidate which is not in the front")
            again = {c.uid for c in get()}
            check(again == members, "asking for a subset changed the front")


def pareto(
    ch: Chooser,
    grid: tp.List[float],
    objectives: int,
    depth: int,
    bounds: tp.Optional[tp.List[float]] = None,
    auto: int = 0,
    no_hypervolume: bool = False,
    container: bool = False,
    subsets: bool = False,
) -> None:
    kwargs: tp.Dict[str, tp.Any] = dict(upper_bounds=bounds) if bounds is not None else dict(auto_bound=auto)
    hp = HypervolumePareto(seed=12, no_hypervolume=no_hypervolume, **kwargs)
    param: tp.Any = ng.p.Tuple(ng.p.Scalar(), ng.p.Scalar()) if container else ng.p.Scalar()
    told: tp.Dict[str, Vector] = {}
    inside: tp.List[Vector] = []
    upper = None if bounds is None else np.array(bounds)
    for k in range(depth):
        losses = tuple(ch.choose(grid, f"objective {i}") for i in range(objectives))
        cand = param.spawn_child(new_value=(k + 0.0, 1.0) if container else k + 0.0)
        cand._losses = np.array(losses)
        hp.add(cand)
        told[cand.uid] = losses
        if bounds is None and k < auto:
            # points uniformly worse than all the previous ones do not count for the bounds
            if upper is None or (np.array(losses) <= upper).any():
                upper = np.array(losses) if upper is None else np.maximum(upper, losses)
            inside.append(losses)
        elif (np.array(losses) <= upper).all():
            inside.append(losses)
        front = hp.pareto_front()
        check_front(front, told, inside)
        ch.state(tuple(told.values()))
    if subsets:
        front = list(hp.pareto_front())
        check_subsets(ch, front, hp.pareto_front, volume=False)


def optimizer(ch: Chooser, name: str, grid: tp.List[float], objectives: int, depth: int, reference: tp.Optional[tp.List[float]]) -> None:
    opt = ng.optimizers.registry[name](ng.p.Instrumentation(ng.p.Scalar(), y=ng.p.Choice(3)), budget=100, num_workers=1)
    opt.parametrization.random_state.seed(12)
    if reference is not None:
        opt.tell(ng.p.MultiobjectiveReference(), np.array(reference))
    told: tp.Dict[str, Vector] = {}
    inside: tp.List[Vector] = []
    for _ in range(depth):
        losses = tuple(ch.choose(grid, f"objective {i}") for i in range(objectives))
        cand = opt.ask()
        opt.tell(cand, list(losses))
        told[cand.uid] = losses
        if reference is None or all(x <= y for x, y in zip(losses, reference)):
            inside.append(losses)
        check_front(opt.pareto_front(), told, inside)
        ch.state(tuple(told.values()))
    front = list(opt.pareto_front())
    check_subsets(ch, front, opt.pareto_front, volume=False)


def volume_subset(ch: Chooser, depth: int) -> None:
    """subset by hypervolume, with all points within the bounds"""
    hp = HypervolumePareto(seed=12, upper_bounds=[4.0, 4.0])
    front = [(0.0, 3.0), (1.0, 2.0), (2.0, 1.0), (3.0, 0.0), (1.5, 1.5)]
    for k in range(depth):
        cand = ng.p.Scalar(k + 0.0)
        cand._losses = np.array(ch.choose(front, "losses"))
        hp.add(cand)
    check_subsets(ch, list(hp.pareto_front()), hp.pareto_front, volume=True)
    ch.state(tuple(tuple(c.losses) for c in hp.pareto_front()))


def order(ch: Chooser, vectors: tp.List[Vector], bounds: tp.Optional[tp.List[float]]) -> None:
    """the front does not depend on the order"""
    left = list(vectors)
    kwargs: tp.Dict[str, tp.Any] = dict(upper_bounds=bounds) if bounds is not None else dict(auto_bound=len(vectors))
    hp = HypervolumePareto(seed=12, **kwargs)
    while left:
        losses = left.pop(ch.choose(len(left), "next"))
        cand = ng.p.Scalar()
        cand._losses = np.array(losses)
        hp.add(cand)
        ch.state(tuple(sorted(left)), losses)
    got = {tuple(c.losses) for c in hp.pareto_front()}
    inside = [v for v in vectors if bounds is None or all(x <= y for x, y in zip(v, bounds))]
    check(non_dominated(inside) <= got, f"front {got} instead of {non_dominated(inside)}")
    check(got <= non_dominated(vectors), f"front {got} has points dominated among {vectors}")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    d = 1 if deep else 0
    three = [0.0, 1.0, 2.0]
    confs: tp.List[tp.Dict[str, tp.Any]] = []
    for bounds in ([2.0, 2.0], [1.0, 2.0], [1.0, 1.0]) + (([3.0, 3.0], [-1.0, 1.0]) if deep else ()):
        confs.append(dict(grid=three, objectives=2, depth=4 + d, bounds=bounds))
    for auto in (1, 2, 3, 10) if deep else (2, 10):
        confs.append(dict(grid=three, objectives=2, depth=4 + d, auto=auto))
    confs.append(dict(grid=three, objectives=2, depth=4, bounds=[1.0, 2.0], no_hypervolume=True))
    confs.append(dict(grid=three, objectives=2, depth=4, auto=2, no_hypervolume=True))
    confs.append(dict(grid=[0.0, 1.0], objectives=3, depth=4 + d, bounds=[2.0, 1.0, 0.0]))
    confs.append(dict(grid=[0.0, 1.0], objectives=3, depth=4 + d, auto=2))
    confs.append(dict(grid=three, objectives=3, depth=3, bounds=[2.0, 2.0, 2.0]))
    subs = [
        dict(grid=three, objectives=2, depth=3, auto=10, subsets=True, container=True),
        dict(grid=three, objectives=2, depth=3, bounds=[3.0, 3.0], subsets=True),
    ]
    opts = []
    for name in ["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "NGOpt", "ES"] + (["MultiobjectiveDE"] if "MultiobjectiveDE" in ng.optimizers.registry else []):
        if name in ng.optimizers.registry:
            for ref in (None, [1.0, 2.0]):
                opts.append(dict(name=name, grid=three, objectives=2, depth=4 if deep else 3, reference=ref))
    es = "NSGAIIES" if "NSGAIIES" in ng.optimizers.registry else None
    if es:
        opts.append(dict(name=es, grid=three, objectives=2, depth=3, reference=None))
    line = [(float(k), 6.0 - k) for k in range(6)] + [(3.0, 3.0)]
    mixed = [(0.0, 4.0), (4.0, 0.0), (2.0, 2.0), (3.0, 1.0), (2.0, 3.0), (5.0, 5.0), (1.0, 5.0)]
    orders = [
        dict(vectors=line, bounds=[6.0, 6.0]),
        dict(vectors=mixed, bounds=[4.0, 4.0]),
        dict(vectors=mixed, bounds=None),
        dict(vectors=[(0.0, 1.0, 2.0), (1.0, 2.0, 0.0), (2.0, 0.0, 1.0), (1.0, 1.0, 1.0), (0.0, 2.0, 2.0), (2.0, 2.0, 2.0)], bounds=[2.0, 2.0, 2.0]),
    ]
    return {
        "pareto": Scenario(pareto, confs),
        "subsets": Scenario(pareto, subs),
        "volume_subset": Scenario(volume_subset, [dict(depth=5 if deep else 4)]),
        "optimizer": Scenario(optimizer, opts),
        "order": Scenario(order, orders),
    }
