"""C08: the hypervolume is the measure of the dominated region, and the scalar loss reflects it."""
import itertools
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import HypervolumeIndicator, HypervolumePareto
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "(indicator) every sequence or multiset of points of a grid (unequal steps, ties, duplicates, points on the bounds), up to 4 objectives; "
    "(generic) every relative order of n points in d objectives (all permutations), i.e. all combinatorial types of generic sets; "
    "(loss) every history of tells on a grid. The oracle is the sum of the dominated grid cells. A state is the set of points."
)
ASSUMPTIONS = [
    "direct calls of the indicator get points which are not beyond the reference (the repository's tests pin a meaningless value for others); "
    "such points are told to the optimizers in the 'loss' scenarios and must not count",
]
STEPS = [(0.0, 1.0, 3.0, 3.5, 7.0, 7.25), (0.0, 2.0, 2.5, 6.5, 7.5, 9.0), (0.0, 0.5, 4.5, 5.5, 6.0, 8.0), (0.0, 3.0, 4.0, 4.5, 6.5, 7.0)]


def measure(points: tp.Iterable[tp.Sequence[int]], n: tp.Sequence[int]) -> float:
    """points as grid indices; the reference is the index vector n"""
    d = len(n)
    pts = [p for p in set(tuple(p) for p in points)]
    total = 0.0
    for cell in itertools.product(*[range(k) for k in n]):
        if any(all(p[i] <= cell[i] for i in range(d)) for p in pts):
            vol = 1.0
            for i in range(d):
                vol *= STEPS[i][cell[i] + 1] - STEPS[i][cell[i]]
            total += vol
    return total


def real(point: tp.Sequence[int]) -> tp.List[float]:
    return [STEPS[i][k] for i, k in enumerate(point)]


def check_volume(ref: tp.Sequence[int], points: tp.Sequence[tp.Sequence[int]], reuse: tp.Any = None, shift: float = 0.0) -> None:
    hv = HypervolumeIndicator(np.array(real(ref)) + shift) if reuse is None else reuse
    values = [np.array(real(p)) + shift for p in points]
    copies = [v.copy() for v in values]
    got = hv.compute(values)
    expected = measure(points, ref)
    check(abs(got - expected) <= 1e-9 * max(1.0, expected), f"hypervolume {got} instead of {expected} for {values}, reference {real(ref)}")
    check(all(np.array_equal(a, b) for a, b in zip(values, copies)), "the points were modified")


def indicator(ch: Chooser, ref: tp.List[int], n: int, ordered: bool, top: tp.Optional[tp.List[int]] = None) -> None:
    grid = list(itertools.product(*[range(k + 1) for k in (top or ref)]))
    points: tp.List[tp.Tuple[int, ...]] = []
    low = 0
    reused = HypervolumeIndicator(np.array(real(ref)))
    for _ in range(n):
        low_k = 0 if ordered else low
        k = ch.choose(list(range(low_k, len(grid))), "point")
        low = k
        points.append(grid[k])
        check_volume(ref, points, reuse=reused)  # the same object is used again with one more point
    ch.state(sorted(points))
    if ordered:
        check_volume(ref, points[::-1], shift=-5.0)


def generic(ch: Chooser, d: int, n: int) -> None:
    """n points with distinct coordinates: the first coordinate is the index, each other is any permutation"""
    coords: tp.List[tp.List[int]] = [list(range(n))]
    for i in range(1, d):
        left = list(range(n))
        coords.append([left.pop(ch.choose(len(left), f"rank in objective {i}")) for _ in range(n)])
    points = [tuple(c[k] for c in coords) for k in range(n)]
    check_volume([n] * d, points)
    check_volume([n] * d, points[::-1])
    check_volume([n - 1] * d, [p for p in points if max(p) < n])  # one or several points on the bounds
    ch.state(points)


def loss(ch: Chooser, size: int, ref: tp.List[int], depth: int, through: str, auto: int = 0) -> None:
    d = len(ref)
    hp: tp.Any = None
    opt: tp.Any = None
    if through == "direct":
        hp = HypervolumePareto(upper_bounds=real(ref)) if not auto else HypervolumePareto(auto_bound=auto)
    else:
        opt = ng.optimizers.registry[through](ng.p.Scalar(), budget=100)
        opt.parametrization.random_state.seed(12)
        opt.tell(ng.p.MultiobjectiveReference(), np.array(real(ref)))
    upper = list(ref)
    inside: tp.List[tp.Tuple[int, ...]] = []
    told: tp.List[tp.Tuple[int, ...]] = []
    volume: tp.Optional[float] = None
    for step in range(depth):
        point = tuple(ch.choose(size, f"objective {i}") for i in range(d))
        told.append(point)
        ch.state(tuple(told))
        if opt is not None:
            cand = opt.ask()
            opt.tell(cand, real(point))
            got = float(cand.loss)
        else:
            cand = ng.p.Scalar()
            cand._losses = np.array(real(point))
            got = float(hp.add(cand))
        if auto and step < auto:
            # documented: 0, except if uniformly worse than the previous points (then it does not count for the bounds)
            worse = step > 0 and all(point[i] > upper[i] for i in range(d))
            if not worse:
                inside.append(point)
                upper = [max(p[i] for p in inside) for i in range(d)]
            check(got == (float("inf") if worse else 0.0), f"loss {got} while the bounds are set up")
            continue
        excess = [max(0.0, STEPS[i][point[i]] - STEPS[i][upper[i]]) for i in range(d)]
        if any(excess):
            check(abs(got - sum(excess)) < 1e-9, f"loss {got} for a point over the bounds by {excess}, after {told}")
            continue
        measured = volume is not None
        inside.append(point)
        before = measure(inside[:-1], upper)
        volume = measure(inside, upper)
        check(got < float("inf"), f"loss {got} for a point within the bounds, after {told}")
        if volume > before:
            check(abs(got + volume) < 1e-9, f"loss {got} for a point extending the volume to {volume}, after {told}")
        else:
            check(got >= -volume - 1e-9, f"loss {got} better than minus the volume {volume}, after {told}")
            gaps = []
            for other in inside[:-1]:
                if all(o <= p for o, p in zip(other, point)):
                    gaps.append(min(STEPS[i][p] - STEPS[i][o] for i, (o, p) in enumerate(zip(other, point))))
            distance = max(gaps, default=0.0)
            check(got <= -volume + distance + 1e-9, f"penalty {got + volume} larger than any distance {gaps} to a better point")
            # strictly worse in all objectives than all the points that dominate it: strictly positive penalty
            # (the first point told after the automatic bounds are set is documented as setting the best volume)
            if gaps and min(gaps) > 0 and measured:
                check(got > -volume, f"no penalty for a point strictly dominated, after {told}")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    ind: tp.List[tp.Dict[str, tp.Any]] = [
        dict(ref=[3], n=4, ordered=True),
        dict(ref=[3, 3], n=3, ordered=True),
        dict(ref=[4, 4], n=4 if deep else 3, ordered=False),
        dict(ref=[2, 2, 2], n=3, ordered=True),
        dict(ref=[2, 2, 2], n=5 if deep else 4, ordered=False, top=[1, 2, 2] if not deep else None),
        dict(ref=[3, 3, 3], n=3, ordered=False, top=[2, 3, 3]),
        dict(ref=[1, 1, 1, 1], n=5 if deep else 4, ordered=False),
        dict(ref=[2, 2, 2, 2], n=3, ordered=False, top=[1, 2, 1, 2] if not deep else None),
        dict(ref=[3, 3], n=2, ordered=True),
    ]
    gen = [dict(d=2, n=5), dict(d=3, n=4), dict(d=3, n=5), dict(d=4, n=3), dict(d=4, n=4)]
    los = [
        dict(size=4, ref=[2, 2], depth=3, through="direct"),
        dict(size=4, ref=[3, 1], depth=3, through="direct"),
        dict(size=3, ref=[2, 2], depth=5 if deep else 4, through="direct"),
        dict(size=3, ref=[1, 1], depth=5 if deep else 4, through="direct"),
        dict(size=3, ref=[1, 2, 1], depth=3, through="direct"),
        dict(size=2, ref=[1, 1, 1], depth=5 if deep else 4, through="direct"),
        dict(size=3, ref=[0, 0], depth=4, through="direct", auto=1),
        dict(size=3, ref=[0, 0], depth=4, through="direct", auto=2),
        dict(size=3, ref=[0, 0], depth=4, through="direct", auto=3),
        dict(size=3, ref=[2, 1], depth=3, through="OnePlusOne"),
        dict(size=3, ref=[2, 1], depth=3, through="CMA"),
        dict(size=3, ref=[2, 1], depth=3, through="PSO"),
    ]
    return {"indicator": Scenario(indicator, ind), "generic": Scenario(generic, gen), "loss": Scenario(loss, los)}
