"""C30: low-discrepancy samplers cover the cube as announced."""
import math
import typing as tp
import warnings

import numpy as np
from scipy import stats
import nevergrad as ng
from nevergrad.optimization import sequences
from mc import optim
from mc.checks import c12
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario
from mc.rng import Chosen

RULE = (
    "an execution builds one sampler (or a one-shot optimizer) for a dimension, a budget and a seed or an explored sequence of random draws, and drives it through an explored sequence of draws and resets "
    "or through its whole budget; all the points are compared to an independent implementation of the definitions (radical inverses in exact arithmetic, slices of the axes). A state is the list of points "
    "which were drawn."
)
ASSUMPTIONS = ["optimizers are observed through the coordinates of their candidates, on unbounded (gaussian or cauchy quantiles) and bounded arrays"]


def primes(number: int) -> tp.List[int]:
    out: tp.List[int] = []
    k = 2
    while len(out) < number:
        if all(k % q for q in out):
            out.append(k)
        k += 1
    return out


def digits(n: int, base: int) -> tp.List[int]:
    out = []
    while n:
        out.append(n % base)
        n //= base
    return out


def radical_inverse(n: int, base: int, perm: tp.Sequence[int]) -> float:
    """exact computation of the reflected number"""
    ds = digits(n, base)
    num = 0
    for d in ds:
        num = num * base + perm[d]
    return num / base ** len(ds)


def in_cube(points: np.ndarray, what: str) -> None:
    check(bool(((points > 0) & (points < 1)).all()), f"{what}: points out of the cube {points[~((points > 0) & (points < 1)).all(axis=1)][:2]}", key="cube")


def slices(points: np.ndarray, budget: int, what: str) -> None:
    """exactly one point in each slice"""
    for axis in range(points.shape[1]):
        cells = sorted(np.floor(points[:, axis] * budget).astype(int).tolist())
        check(cells == list(range(budget)), f"{what}: the slices of axis {axis} are {cells} for {budget} points", key="slices")


def permutation_of(xs: tp.Sequence[float], base: int, scrambled: bool, what: str) -> None:
    """values of a Halton axis: digits are permuted by one permutation which fixes 0"""
    perm = list(range(base))
    if scrambled:
        for n in range(1, min(base, len(xs) + 1)):
            value = xs[n - 1] * base
            perm[n] = int(round(value))
            check(abs(value - perm[n]) < 1e-9, f"{what}: point {n} is {xs[n - 1]} in base {base}", key="digits")
        known = min(base, len(xs) + 1)
        check(len(set(perm[:known])) == known and all(0 <= d < base for d in perm[:known]) and perm[0] == 0, f"{what}: the digits become {perm[:known]}", key="permutation")
    for n, x in enumerate(xs, start=1):
        check(abs(x - radical_inverse(n, base, perm)) < 1e-12, f"{what}: point {n} is {x} instead of {radical_inverse(n, base, perm)} in base {base} (digits {perm})", key="radical inverse")
    # an immediate consequence which does not depend on the definition: a full period has one point in each slice
    for power in range(1, 6):
        size = base**power
        for start in range(size - 1, len(xs) - size + 1, size):
            cells = sorted(int(x * size + 1e-9) for x in xs[start : start + size])
            check(cells == list(range(size)), f"{what}: slices {cells[:12]} of the points {start + 1} to {start + size}", key="equidistributed")


def judge(kind: str, points: np.ndarray, dimension: int, budget: int, scrambled: bool, what: str) -> None:
    check(points.shape == (budget, dimension), f"{what}: shape {points.shape}", key="shape")
    if not points.size:
        return
    in_cube(points, what)
    if kind == "LHSSampler":
        slices(points, budget, what)
    elif kind == "HaltonSampler":
        for axis, base in enumerate(primes(dimension)):
            permutation_of(points[:, axis].tolist(), base, scrambled, what)
    elif kind == "HammersleySampler":
        check(np.allclose(points[:, 0], (np.arange(budget) + 0.5) / budget, atol=1e-12), f"{what}: first axis {points[:, 0]}", key="hammersley")
        for axis, base in enumerate(primes(dimension - 1)):
            permutation_of(points[:, axis + 1].tolist(), base, scrambled, what)


def build(kind: str, dimension: int, budget: int, scrambled: bool, rng: tp.Any) -> tp.Any:
    return sequences.samplers[kind](dimension, budget, scrambling=scrambled, random_state=rng)


def whole(ch: Chooser, kind: str, dimension: int, budgets: tp.Sequence[int], scrambled: bool, seeds: int) -> None:
    budget = ch.choose(budgets, "budget")
    seed = ch.choose(range(seeds), "seed")
    sampler = build(kind, dimension, budget, scrambled, np.random.RandomState(seed))
    points = np.array([sampler() for _ in range(budget)], dtype=float).reshape(budget, dimension)
    what = f"{kind} {'scrambled ' if scrambled else ''}in dimension {dimension} with budget {budget} and seed {seed}"
    judge(kind, points, dimension, budget, scrambled, what)
    for _ in range(2):
        sampler.reinitialize()
        again = np.array(list(sampler), dtype=float).reshape(budget, dimension)
        check(np.array_equal(points, again), f"{what}: other points after a reset", key="reset")
    if kind != "RandomSampler" or budget > 1:
        for k in range(budget):
            ch.state(kind, dimension, budget, scrambled, points[: k + 1].tobytes())
    try:
        sampler()
    except AssertionError:
        pass
    else:
        check(False, f"{what}: a point over the budget", key="over")
    if dimension and budget > 1:
        sampler.reinitialize()
        rescaler = sequences.Rescaler(sampler)
        out = np.array([rescaler.apply(p) for p in points])
        check(bool(((out >= 0) & (out <= 1)).all()), f"{what}: rescaled out of the cube", key="rescaled cube")
        check(bool((out.min(axis=0) < 1e-9).all() and (out.max(axis=0) > 1 - 1e-9).all()), f"{what}: rescaled to {out.min(axis=0)} - {out.max(axis=0)}", key="rescaled")
        order = [np.array_equal(np.argsort(a, kind="stable"), np.argsort(b, kind="stable")) for a, b in zip(points.T, out.T)]
        check(all(order), f"{what}: the rescaling changes the order", key="rescaled order")
    elif dimension:
        sampler.reinitialize()
        one = sequences.Rescaler(sampler).apply(points[0])
        check(bool(np.isfinite(one).all() and (one >= 0).all() and (one <= 1).all()), f"{what}: rescaled to {one}", key="rescaled one")


def draws(ch: Chooser, kind: str, dimension: int, budget: int, scrambled: bool) -> None:
    """every random permutation"""
    rng = Chosen(ch, [0.0, 0.4, 1 - 2**-53], max_draws=14)
    sampler = build(kind, dimension, budget, scrambled, rng)
    points = np.array([sampler() for _ in range(budget)]).reshape(budget, dimension)
    what = f"{kind} in dimension {dimension} with budget {budget}"
    check(bool(((points >= 0) & (points <= 1)).all()), f"{what}: points out of the cube {points}", key="cube")
    if kind == "LHSSampler":
        for axis in range(dimension):  # rounding can reach the next slice
            low = sorted(np.floor(points[:, axis] * budget + 1e-12 - 1e-9).astype(int).clip(0).tolist())
            check(low == list(range(budget)) or sorted(np.floor(points[:, axis] * budget + 1e-12).astype(int).tolist()) == list(range(budget)), f"{what}: slices of {points[:, axis]}", key="slices")
    ch.state(kind, dimension, budget, scrambled, points.tobytes())


def operations(ch: Chooser, kind: str, dimension: int, budget: int, scrambled: bool, depth: int) -> None:
    """two samplers, in any order"""
    samplers = [build(kind, dimension, budget, scrambled, np.random.RandomState(k)) for k in range(2)]
    reference = []
    for k in range(2):
        ref = build(kind, dimension, budget, scrambled, np.random.RandomState(k))
        reference.append([np.array(ref()) for _ in range(budget)])
    position = [0, 0]
    story = []
    for _ in range(depth):
        op = ch.choose([f"{op} {k}" for op in ("draw", "reset", "iterate") for k in range(2)], "operation")
        story.append(op)
        what, k = op.split()[0], int(op.split()[1])
        sampler = samplers[k]
        if what == "draw":
            try:
                point = np.array(sampler())
            except AssertionError:
                check(position[k] == budget, f"{kind}: no point after {position[k]} of {budget}, {story}", key="missing")
                continue
            check(position[k] < budget, f"{kind}: {position[k] + 1} points for a budget {budget}, {story}", key="over")
            check(np.array_equal(point, reference[k][position[k]]), f"{kind}: point {position[k]} is {point} instead of {reference[k][position[k]]} after {story}", key="sequence")
            point += 1000.0  # what the user does with it does not matter
            position[k] += 1
        elif what == "reset":
            sampler.reinitialize()
            position[k] = 0
        else:
            try:
                points = [np.array(x) for x in sampler]
            except AssertionError:
                check(position[k] > 0, f"{kind}: not iterable after {story}", key="iterate")
                continue
            check(np.array_equal(points, reference[k]), f"{kind}: {points} while iterating, after {story}", key="iterated")
            position[k] = budget
        ch.state(kind, dimension, budget, scrambled, story)


def first_primes(ch: Chooser, block: int, size: int) -> None:
    expected = primes((block + 1) * size)
    for n in range(block * size, (block + 1) * size):
        got = sequences._get_first_primes(n).tolist()
        check(got == expected[:n], f"the {n} first primes are {got[-3:]}", key="primes")
        ch.state(n)


# --------------------------------------------------------------------------------------------------------------- optimizers
def uniform(values: np.ndarray, kind: str, scale: float, cauchy: bool) -> np.ndarray:
    """back to the cube"""
    if kind == "bounded":
        return (values + 1.0) / 3.0
    if kind == "log":
        return np.log(values / 0.1) / np.log(100.0)  # type: ignore
    law = stats.cauchy if cauchy else stats.norm
    return law.cdf(values / scale)  # type: ignore


def parameter(kind: str, dimension: int) -> tp.Any:
    if kind == "bounded":
        return ng.p.Array(shape=(dimension,)).set_bounds(-1, 2)
    if kind == "log":
        return ng.p.Tuple(*[ng.p.Log(lower=0.1, upper=10) for _ in range(dimension)])
    return ng.p.Array(shape=(dimension,))


def searches() -> tp.Dict[str, tp.Dict[str, tp.Any]]:
    """registered quasi-random optimizers, as announced by their names"""
    out: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
    for name in ng.optimizers.registry:
        for sampler in ("Halton", "Hammersley", "LHS"):
            core = name.replace("Search", "")
            opts = dict(sampler=sampler + "Sampler", scrambled="Scr" in core, middle="PlusMiddlePoint" in core, cauchy="Cauchy" in core, opposite="", scale=1.0)
            core = core.replace("PlusMiddlePoint", "").replace("Cauchy", "").replace("Large", "")
            if core.startswith("QO") or core.startswith("O"):
                opts["opposite"] = "quasi" if core.startswith("QO") else "opposite"
                core = core[2:] if core.startswith("QO") else core[1:]
            if core in (sampler, "Scr" + sampler):
                if "Large" in name:
                    opts["scale"] = 100.0
                out[name] = opts
    for name in ("MetaRecentering", "MetaTuneRecentering"):
        out[name] = dict(sampler="HammersleySampler", scrambled=True, middle=False, cauchy=False, opposite="", scale=name)
    return out


def search(ch: Chooser, names: tp.List[str], kinds: tp.List[str], dimensions: tp.List[int], budgets: tp.List[int], seeds: int) -> None:
    name = ch.choose(names, "optimizer")
    opts = searches()[name]
    kind = ch.choose(kinds, "kind")
    dimension = ch.choose(dimensions, "dimension")
    budget = ch.choose(budgets, "budget")
    seed = ch.choose(range(seeds), "seed")
    workers = ch.choose([1, budget] if budget > 1 else [1], "workers")
    order = ch.choose(["sequential", "batch"], "tells") if workers == 1 else "batch"
    opt = optim.create(name, parameter(kind, dimension), budget=budget, num_workers=workers)
    opt.parametrization.random_state.seed(seed)
    values = []
    cands = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(budget):
            cand = opt.ask()
            values.append(np.array(cand.value, dtype=float).ravel())
            cands.append(cand)
            if order == "sequential":
                opt.tell(cand, float(k * 7 % 5))
        for k, cand in enumerate(cands if order == "batch" else []):
            opt.tell(cand, float(k * 7 % 5))
    data = np.array(values)
    what = f"{name} on {kind} in dimension {dimension} with budget {budget}, seed {seed}"
    check(bool(np.isfinite(data).all()), f"{what}: proposes {data}", key=f"finite {name}")
    if opts["middle"]:
        check(bool(np.allclose(data[0], np.ravel(opt.parametrization.value))), f"{what}: the first point is {data[0]}", key="middle")
        data = data[1:]
    if opts["opposite"] and kind == "free":
        for a, b in zip(data[::2], data[1::2]):
            ratio = -1.0 if opts["opposite"] == "opposite" else -np.linalg.norm(b) / max(1e-100, np.linalg.norm(a))
            good = np.allclose(b, ratio * a) and ratio >= -1 - 1e-12
            check(bool(good), f"{what}: {b} is not the opposite of {a}", key="opposite")
    if opts["opposite"]:
        data = data[::2]
    scale = opts["scale"]
    if scale == "MetaRecentering":
        if dimension == 1 and kind == "free":
            return  # infinite scale in the definition
        scale = (1 + np.log(budget)) / (4 * np.log(dimension)) if dimension > 1 else 1.0
    elif scale == "MetaTuneRecentering":
        scale = np.sqrt(np.log(budget) / dimension)
    if len(data) and scale:
        points = uniform(data, kind, scale, opts["cauchy"])
        points = np.where(np.abs(points - np.round(points, 12)) < 1e-13, np.round(points, 12), points)
        if scale > 1.0 and kind == "free" or kind == "free" and opts["cauchy"]:
            in_cube(points, what)
        judge(opts["sampler"], points, dimension, len(data), opts["scrambled"], what)
    for k in range(budget):
        ch.state(name, kind, dimension, budget, order, np.array(values[: k + 1]).tobytes())


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    c12.preload()
    deep = tier == "thorough"
    wh = []
    for kind in ("LHSSampler", "HaltonSampler", "HammersleySampler", "RandomSampler"):
        for scrambled in (False, True) if kind[0] == "H" else (False,):
            for dimension in (1, 2, 3, 4, 6, 9) + ((13, 40) if deep else ()):
                wh.append(dict(kind=kind, dimension=dimension, budgets=list(range(1, 41 if not deep else 131)) + [64, 128, 130, 343][: 4 if deep else 2], scrambled=scrambled, seeds=4 if deep else 2))
    dr = [dict(kind="LHSSampler", dimension=d, budget=b, scrambled=False) for d, b in ((1, 1), (1, 2), (1, 3), (2, 2), (1, 4)) + (((2, 3), (3, 2)) if deep else ())]
    dr += [dict(kind="RandomSampler", dimension=d, budget=b, scrambled=False) for d, b in ((1, 3), (2, 2), (3, 2))]
    ops = [dict(kind=k, dimension=d, budget=b, scrambled=s, depth=5 if deep else 4) for k in ("LHSSampler", "HaltonSampler", "HammersleySampler", "RandomSampler") for s in ((False, True) if k[0] == "H" else (False,)) for d, b in ((1, 2), (3, 2), (2, 3))]
    pr = [dict(block=b, size=100) for b in range(30 if deep else 12)]
    names = sorted(searches())
    se = [dict(names=[n], kinds=[k], dimensions=[1, 2, 3, 5], budgets=list(range(1, 41 if deep else 9)) + [16, 25], seeds=4 if deep else 1) for n in names for k in ("free", "bounded", "log")]
    return {
        "whole": Scenario(whole, wh),
        "draws": Scenario(draws, dr),
        "operations": Scenario(operations, ops),
        "primes": Scenario(first_primes, pr),
        "search": Scenario(search, se),
    }
