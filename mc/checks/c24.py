"""C24: mutations and recombinations stay in the domain and preserve what they announce."""
import itertools
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.ops import mutations
from nevergrad.optimization import differentialevolution, mutations as discrete
from nevergrad.parametrization import discretization
from mc import params
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario
from mc.rng import Chosen

RULE = (
    "an execution applies one operator to small arrays (all shapes, axes, sizes up to the bound), each integer, option and real number drawn by the operator being resolved by the "
    "explorer (all the integers and options, a grid of real numbers). A state is an operator with its inputs and the draws."
)
ASSUMPTIONS = [
    "the last entry of an axis is never part of the moved block of Crossover and LocalGaussian (pinned by the tests of the library)",
    "fourier crossovers are checked for the bounds and for identical parents only",
]
GRID = [0.5, 0.01, 0.99, 0.3]


def install(param: tp.Any, ch: Chooser, grid: tp.Sequence[float] = GRID, max_draws: int = 12) -> tp.Any:
    param.random_state = Chosen(ch, grid, max_draws)
    return param


ARRAYS: tp.Dict[str, tp.Callable[[np.ndarray], tp.Any]] = {
    "plain": lambda x: ng.p.Array(init=x),
    "bounded": lambda x: ng.p.Array(init=x, lower=-1.0, upper=100.0),
    "bouncing": lambda x: ng.p.Array(init=x).set_bounds(-1.0, 100.0, method="bouncing"),
    "arctan": lambda x: ng.p.Array(init=x).set_bounds(-1.0, 100.0, method="arctan"),
    "integer": lambda x: ng.p.Array(init=x).set_integer_casting(),
    "log": lambda x: ng.p.Array(init=x).set_mutation(exponent=2.0),
    "percoord": lambda x: ng.p.Array(init=x, lower=x - 1.0, upper=x + 40.0),
    "sigma": lambda x: ng.p.Array(init=x, mutable_sigma=True).set_mutation(sigma=3.0),
}


def first(shape: tp.Tuple[int, ...]) -> np.ndarray:
    return np.arange(1.0, np.prod(shape) + 1).reshape(shape)


def shapes_with_axes(big: bool = False) -> tp.List[tp.Tuple[tp.Tuple[int, ...], tp.Any]]:
    out: tp.List[tp.Tuple[tp.Tuple[int, ...], tp.Any]] = []
    for shape in [(2,), (3,), (5,)] + ([(4,), (7,)] if big else []):
        out += [(shape, None), (shape, 0), (shape, -1)]
    for shape in [(2, 3), (3, 3)] + ([(4, 2), (2, 5)] if big else []):
        out += [(shape, a) for a in (None, 0, 1, (0, 1), -1, (1,))]
    return out + [((2, 3, 2), None), ((2, 3, 2), (0, 2)), ((2, 3, 2), 1)]


def axes_of(shape: tp.Sequence[int], axis: tp.Any) -> tp.Tuple[int, ...]:
    if axis is None:
        return tuple(range(len(shape)))
    return tuple(a % len(shape) for a in ((axis,) if isinstance(axis, int) else axis))


def block(mask: np.ndarray, axes: tp.Tuple[int, ...]) -> tp.List[int]:
    """sizes along the axes of a block; empty if the mask is not a block"""
    if not mask.any():
        return []
    ranges = []
    for a in range(mask.ndim):
        others = tuple(k for k in range(mask.ndim) if k != a)
        pos = np.nonzero(mask.any(axis=others) if others else mask)[0]
        ranges.append((pos.min(), pos.max() + 1))
    expected = np.zeros(mask.shape, dtype=bool)
    expected[tuple(slice(*r) for r in ranges)] = True
    if not np.array_equal(expected, mask):
        return []
    for a in range(mask.ndim):
        if a not in axes and ranges[a] != (0, mask.shape[a]):
            return []
    return [int(ranges[a][1] - ranges[a][0]) for a in axes]


def valid(kind: str, start: np.ndarray, value: tp.Any) -> bool:
    if not isinstance(value, np.ndarray) or value.shape != start.shape or not np.isfinite(value).all():
        return False
    if kind in ("bounded", "bouncing", "arctan"):
        return bool((value >= -1 - 1e-9).all() and (value <= 100 + 1e-9).all())
    if kind == "percoord":
        return bool((value >= start - 1 - 1e-9).all() and (value <= start + 40 + 1e-9).all())
    if kind == "integer":
        return value.dtype.kind == "i"
    return kind != "log" or bool((value > 0).all())


def crossover(ch: Chooser, shape: tp.Tuple[int, ...], axis: tp.Any, kind: str, ravel: bool, fft: bool = False) -> None:
    size_kind = ch.choose(["none", "one", "two", "big", "scalar"], "max size")
    max_size: tp.Any = {"none": None, "one": 1, "two": 2, "big": 50, "scalar": ng.p.Scalar(init=1.5, lower=1.0, upper=3.0)}[size_kind]
    start = first(shape)
    operator = mutations.RavelCrossover(max_size=max_size) if ravel else mutations.Crossover(axis=axis, max_size=max_size, fft=fft)
    ref = install(operator(ARRAYS[kind](start)), ch)
    one = ref.spawn_child()
    two = ref.spawn_child(new_value=start.astype(int if kind == "integer" else float) + 20)
    identical = ch.choose([False, True], "identical parents")
    if identical:
        two = ref.spawn_child()
    a, b = one.value.copy(), two.value.copy()
    read = ch.choose([True, False], "read before")
    if read:
        one.value  # pylint: disable=pointless-statement
    one.recombine(two)
    ch.state(shape, axis, kind, ravel, ch.trace)
    out = one.value
    check(valid(kind, start, out), f"invalid value {out}", key="valid")
    check(np.allclose(two.value, b, atol=1e-9) and np.allclose(ref.value, a, atol=1e-9), "another instance was modified", key="other")
    if identical:
        check(np.allclose(out, a, atol=1e-6), f"identical parents {a} gave {out}", key="identical")
        return
    if fft:
        return
    tol = 1e-6
    from_a, from_b = np.isclose(out, a, atol=tol), np.isclose(out, b, atol=tol)
    check((from_a | from_b).all(), f"{out} is not made of {a} and {b}", key="parents")
    axes = (0,) if ravel else axes_of(shape, axis)
    mask = from_b.ravel() if ravel else from_b
    sizes = block(mask, axes)
    check(sizes and len(set(sizes)) == 1, f"the part of the second parent is not one block: {mask}", key="block")
    dims = [int(np.prod(shape))] if ravel else [shape[k] for k in axes]
    limit = {"one": 1, "two": 2, "big": 50, "scalar": 3}.get(size_kind, int(((np.prod(shape) + 1) / 2) ** (1 / len(axes))))
    check(sizes[0] <= max(1, limit) and all(sizes[0] < d for d in dims), f"block of size {sizes} for a maximum of {limit}", key="size")
    check(a.size == 1 or from_a.any(), "nothing comes from the first parent", key="first")


def three(ch: Chooser, ravel: bool) -> None:
    """a crossover merges two arrays"""
    ref = install((mutations.RavelCrossover() if ravel else mutations.Crossover(axis=0))(ng.p.Array(init=[1.0, 2.0, 3.0, 4.0])), ch)
    number = ch.choose([0, 2, 3], "others")
    ch.state(ravel, number)
    child = ref.spawn_child()
    try:
        child.recombine(*[ref.spawn_child(new_value=np.full(4, 9.0)) for _ in range(number)])
    except Exception as e:  # pylint: disable=broad-except
        check(number != 0, f"recombination without any other parent fails: {e}", key="none")
        return
    check(number == 0 and np.array_equal(child.value, [1, 2, 3, 4]), f"recombination with {number} others gave {child.value}", key="number")


def translation(ch: Chooser, shape: tp.Tuple[int, ...], axis: tp.Any, kind: str) -> None:
    start = first(shape)
    ref = install(mutations.Translation(axis=axis)(ARRAYS[kind](start)), ch)
    moved(ch, ref, kind, start, axes_of(shape, axis), rolled=True)


def moved(ch: Chooser, ref: tp.Any, kind: str, start: np.ndarray, axes: tp.Tuple[int, ...], rolled: bool) -> None:
    child = ref.spawn_child()
    before = child.value.copy() if ch.choose([True, False], "read before") else ref.value.copy()
    child.mutate()
    ch.state(start.shape, axes, kind, ch.trace)
    out = child.value
    check(valid(kind, start, out), f"invalid value {out}", key="valid")
    check(np.allclose(ref.value, before, atol=1e-6), "the parent was modified", key="other")
    if kind == "percoord":
        return  # entries are changed to respect their bounds
    if rolled:
        options = [np.roll(before, shifts, axis=axes) for shifts in itertools.product(*[range(start.shape[a]) for a in axes])]
        check(any(np.allclose(out, x, atol=1e-6) for x in options), f"{out} is not a translation of {before}", key="translation")
    else:
        (axis,) = axes
        n = start.shape[axis]
        lines = np.moveaxis(before, axis, 0).reshape(n, -1)
        new = np.moveaxis(out, axis, 0).reshape(n, -1)
        match = [[i for i in range(n) if np.allclose(lines[i], x, atol=1e-6)] for x in new]
        check(all(match) and sorted(m[0] for m in match) == list(range(n)), f"{out} does not rearrange {before}", key="jumping")
        order = [m[0] for m in match]
        blocks = 1 + sum(order[i + 1] != order[i] + 1 for i in range(n - 1))
        check(blocks <= 4, f"{order} is not obtained by moving one block", key="blocks")
    again = child.value
    check(np.array_equal(again, out), "the value changes when it is read", key="repeat")
    data = child.get_standardized_data(reference=ref)
    back = ref.spawn_child().set_standardized_data(data, reference=ref).value
    check(np.allclose(back, out, atol=1e-6), f"coordinates give {back} instead of {out}", key="coordinates")


def jumping(ch: Chooser, shape: tp.Tuple[int, ...], axis: int, kind: str) -> None:
    size = ch.choose([1, 2, 3, 6], "size")
    start = first(shape)
    ref = install(mutations.Jumping(axis=axis, size=size)(ARRAYS[kind](start)), ch)
    moved(ch, ref, kind, start, axes_of(shape, axis), rolled=False)


def local(ch: Chooser, shape: tp.Tuple[int, ...], axis: tp.Any, kind: str) -> None:
    axes = axes_of(shape, axis)
    size = ch.choose(list(range(1, min(shape[a] for a in axes) + 1)), "size")
    start = first(shape)
    ref = install(mutations.LocalGaussian(size=size, axes=axis)(ARRAYS[kind](start)), ch, [0.95, 0.01], max_draws=6)
    child = ref.spawn_child()
    before = child.value.copy() if ch.choose([True, False], "read before") else ref.value.copy()
    child.mutate()
    ch.state(shape, axis, kind, ch.trace)
    out = child.value
    check(valid(kind, start, out), f"invalid value {out}", key="valid")
    check(np.allclose(ref.value, before, atol=1e-9), "the parent was modified", key="other")
    if kind in ("integer", "percoord"):
        return
    sizes = block(~np.isclose(out, before, atol=1e-9), axes)
    check(sizes and set(sizes) == {size}, f"block of sizes {sizes} instead of {size}: {out - before}", key="block")


def cauchy(ch: Chooser, name: str) -> None:
    leaf = params.LEAVES[name]
    ref = install(mutations.Cauchy()(leaf.build()), ch, [0.5, 1e-9, 1 - 1e-9, 0.9], max_draws=5)
    child = ref.spawn_child()
    before = ref.value
    child.mutate()
    ch.state(name, ch.trace)
    check(leaf.valid(child.value), f"invalid value {child.value} for {name}", key=name)
    check(params.same_value(before, ref.value, tol=0.0), "the parent was modified", key=f"other {name}")


def mutation_choice(ch: Chooser, default: bool, kind: str) -> None:
    start = first((4,))
    options = [mutations.Translation(), mutations.Jumping(axis=0, size=2)]
    ref = install(mutations.MutationChoice(options, with_default=default)(ARRAYS[kind](start)), ch, [0.2, 0.5, 0.9], max_draws=7)
    child = ref
    for _ in range(2):
        child = child.spawn_child()
        before = child.value.copy()
        child.mutate()
        ch.state(default, kind, ch.trace)
        out = child.value
        check(valid(kind, start, out), f"invalid value {out}", key="valid")
        if not default:
            check(np.allclose(sorted(out), sorted(before), atol=1e-6), f"{out} does not rearrange {before}", key="choice")
    check(np.allclose(ref.value, start), "the parent was modified", key="other")


# DEFAULT OPERATORS


def recombination(ch: Chooser, name: str) -> None:
    """default recombination: average of the coordinates"""
    leaf = params.LEAVES[name]
    ref = install(leaf.build(), ch, GRID, max_draws=5)
    number = ch.choose([2, 3, 1], "parents")
    values = []
    items = []
    for k in range(number):
        v = ch.choose([None] + leaf.values, "value") if k else leaf.values[0]
        v = leaf.values[0] if v is None else v
        values.append(v)
        items.append(ref.spawn_child(new_value=v))
    read = [x.value for x in items] if ch.choose([True, False], "read before") else None
    items[0].recombine(*items[1:])
    ch.state(name, ch.trace)
    out = items[0].value
    check(leaf.valid(out), f"invalid value {out} for {name}", key=f"valid {name}")
    for x, v in zip(items[1:], values[1:]):
        check(params.same_value(x.value, v), f"another parent was modified: {x.value} instead of {v}", key=f"other {name}")
    if all(params.same_value(values[0], v) for v in values) and not leaf.stochastic:
        check(params.same_value(out, values[0]), f"identical parents {values[0]} gave {out}", key=f"identical {name}")
    elif isinstance(values[0], (float, int, np.ndarray)) and leaf.positional is None and not name.endswith('-param'):
        low, high = np.min(values, axis=0), np.max(values, axis=0)
        if not name.startswith(("angles", "array-mod", "scalar-mod")):
            tol = 1e-6 * (1 + np.abs(high))
            check(np.all(out >= low - tol) and np.all(out <= high + tol), f"{out} is not between {values}", key=f"between {name}")
    del read


def lineage(ch: Chooser, kind: str, depth: int) -> None:
    """generation, parents and lineage along a history of operations"""
    names = ["scalar-bounds", "choice-det"]
    if kind in params.KINDS:
        ref, _ = params.composite(kind, names)
    elif kind == "crossover":
        ref = mutations.Crossover(axis=0)(ng.p.Array(init=[1.0, 2.0, 3.0, 4.0]))
    else:
        ref = params.build(kind)
    ref.random_state = np.random.RandomState(7)
    family = [ref]
    expected: tp.Dict[str, tp.Tuple[int, tp.List[str], str]] = {ref.uid: (0, [], ref.heritage["lineage"])}
    for _ in range(depth):
        who = family[ch.choose(list(range(len(family)))[::-1], "who")]
        op = ch.choose(["spawn", "sample", "recombine", "mutate", "copy", "set", "data"], "operation")
        gen, parents, line = expected[who.uid]
        if op in ("spawn", "sample", "copy", "data"):
            if op == "spawn":
                new = who.spawn_child()
                expected[new.uid] = (gen + 1, [who.uid], line)
            elif op == "sample":
                new = who.sample()
                expected[new.uid] = (0, [], new.uid)
            elif op == "data":
                new = who.spawn_child().set_standardized_data(np.ones(ref.dimension) * 0.1, reference=ref)
                expected[new.uid] = (gen + 1, [who.uid], line)
            else:
                new = who.copy()
                expected[new.uid] = (gen, parents, line)
            check(new not in family and new.uid not in [x.uid for x in family], "uid or instance is not new", key="uid")
            family.append(new)
        elif op == "recombine":
            who.recombine(family[ch.choose(list(range(len(family))), "other")].spawn_child())
        elif op == "mutate":
            who.mutate()
        else:
            who.value = who.value
        ch.state(kind, [o for o in expected.values()], ch.trace)
        for x in family:
            g, ps, li = expected[x.uid]
            check(x.generation == g, f"generation {x.generation} instead of {g} after {op}", key="generation")
            check(list(x.parents_uids) == ps, f"parents {x.parents_uids} instead of {ps} after {op}", key="parents")
            check(x.heritage["lineage"] == li, f"lineage {x.heritage['lineage']} instead of {li} after {op}", key="lineage")


# DISCRETE MUTATIONS OF THE ONE-PLUS-ONE FAMILY


def bins(x: tp.Any, arity: int) -> np.ndarray:
    return np.array(discretization.threshold_discretization(np.array(x, dtype=float), arity))


def discrete_mutation(ch: Chooser, method: str, dim: int, arity: int) -> None:
    levels = [0.4, -1.3, 2.0]
    parent = np.array([ch.choose(levels, f"parent {k}") if k < 2 else levels[k % 3] for k in range(dim)])
    keep = parent.copy()
    mutator = discrete.Mutator(Chosen(ch, [0.5001, 0.02, 0.98, 0.7], max_draws=5 if dim > 4 else 7))
    kwargs: tp.Dict[str, tp.Any] = {"arity": arity}
    intensity = None
    if method == "portfolio_discrete_mutation":
        intensity = ch.choose([None, 1, dim], "intensity") if dim > 1 else None
        kwargs["intensity"] = min(intensity, dim - 1) if intensity else None
    elif method == "doubledoerr_discrete_mutation":
        kwargs["max_ratio"] = ch.choose([1.0, 0.0, 0.5], "ratio")
    out = np.array(getattr(mutator, method)(parent, **kwargs), dtype=float)
    ch.state(method, dim, arity, ch.trace)
    check(out.shape == (dim,), f"shape {out.shape}", key="shape")
    check(np.isfinite(out).all(), f"not finite: {out}", key="finite")
    check(np.array_equal(parent, keep), "the parent was modified", key="parent")
    changed = out != parent
    if dim == 1 and method in ("rls_mutation", "portfolio_discrete_mutation", "doubledoerr_discrete_mutation"):
        return  # documented corner case: new random value
    check(changed.any(), "nothing was mutated", key="nothing")
    if method == "rls_mutation":
        check(changed.sum() == 1, f"{changed.sum()} variables were mutated instead of one", key="rls")
    announced = 2 if method == "doerr_discrete_mutation" and dim < 5 else arity
    if announced <= 499:
        before, after = bins(parent, announced), bins(out, announced)
        check((before != after)[changed].all(), f"a mutated variable stays in its bin: {parent} -> {out}", key="bin")


def discrete_crossover(ch: Chooser, kind: str, dim: int) -> None:
    parent = np.array([0.4 + 0.01 * k for k in range(dim)])
    same = ch.choose([False, True], "same")
    donor = parent.copy() if same else np.array([(-1) ** k * (1.2 + 0.01 * k) for k in range(dim)])
    p0, d0 = parent.copy(), donor.copy()
    mutator = discrete.Mutator(Chosen(ch, [0.9, 0.02], max_draws=6 + dim // 2))
    out = np.array(mutator.crossover(parent, donor, **({"rotation": True} if kind == "rotation" else {"crossover_type": kind})), dtype=float)
    ch.state(kind, dim, ch.trace)
    check(out.shape == (dim,) and np.isfinite(out).all(), f"invalid: {out}", key="valid")
    check(np.array_equal(parent, p0) and np.array_equal(donor, d0), "a parent was modified", key="parents modified")
    if kind == "rotation":
        k_options = range(1, dim)
        ok = any(all(o in (p0[i], d0[(i + k) % dim]) or abs(o) > 1.28 or abs(o) < 1e-3 for i, o in enumerate(out)) for k in k_options)
        check(ok, f"{out} is not made of the rotated donor and the parent", key="rotation")
        return
    own = [o in (p, d) for o, p, d in zip(out, p0, d0)]
    mutated = [not x for x in own]
    if same:
        return
    src = ["m" if m else ("p" if o == p else "d") for o, p, d, m in zip(out, p0, d0, mutated)]
    if kind == "onepoint" and dim > 4 or kind == "twopoint" and dim > 6:
        known = [s for s in src if s != "m"]
        cuts = sum(a != b for a, b in zip(known, known[1:]))
        check(cuts <= (1 if kind == "onepoint" else 2), f"{cuts} cuts for {kind}: {src}", key="cuts")
    elif kind in ("max", "min"):
        best = [min(p, d) if kind == "max" else max(p, d) for p, d in zip(p0, d0)]
        check(all(m or o == b for m, o, b in zip(mutated, out, best)), f"{out} instead of {best}", key="extreme")


def de_crossover(ch: Chooser, kind: tp.Any, dim: int) -> None:
    shape = (2, dim // 2) if kind == "voronoi" and dim >= 4 and dim % 2 == 0 else (dim,)
    param = ng.p.Array(shape=shape)
    rng = Chosen(ch, [0.1, 0.9], max_draws=8)
    co = differentialevolution.Crossover(rng, kind, parameter=param)
    same = ch.choose([False, True], "same")
    donor = np.arange(1.0, dim + 1)
    individual = donor.copy() if same else 10.0 + np.arange(1.0, dim + 1)
    d0, i0 = donor.copy(), individual.copy()
    co.apply(donor, individual)
    ch.state(kind, dim, ch.trace)
    check(np.array_equal(individual, i0), f"the individual was modified: {individual}", key="individual")
    from_d, from_i = donor == d0, np.isin(donor, i0)
    check((from_d | from_i).all(), f"{donor} is not made of {d0} and {i0}", key="parents")
    if kind != "rotated_twopoints":
        check((from_d | (donor == i0)).all(), f"{donor} moves coordinates", key="positions")
        check(not same or np.array_equal(donor, d0), "identical parents are changed", key="identical")
    if same:
        return
    check(from_d.any() or kind == "voronoi", f"nothing comes from the donor: {donor}", key="donor")
    if kind in ("onepoint", "twopoints", "rotated_twopoints") and dim >= 4:
        check(from_i.any(), f"nothing comes from the individual: {donor}", key="no crossover")
        cuts = int(np.sum(from_i[1:] != from_i[:-1]))
        check(cuts <= (1 if kind == "onepoint" else 2), f"{cuts} cuts for {kind}: {donor}", key="cuts")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    shapes = shapes_with_axes(thorough)
    out = {}
    cfgs = [dict(shape=s, axis=a, kind=k, ravel=False) for s, a in shapes for k in (ARRAYS if thorough or len(s) == 1 else ("plain", "bounded"))]
    cfgs += [dict(shape=s, axis=0, kind=k, ravel=True) for s in ((2,), (5,), (2, 3), (2, 2, 2)) for k in ARRAYS]
    cfgs += [dict(shape=s, axis=a, kind=k, ravel=False, fft=True) for s, a in [((4,), 0), ((2, 4), None), ((4, 3), 0)] for k in ("plain", "bounded", "percoord")]
    out["crossover"] = Scenario(crossover, cfgs)
    out["three"] = Scenario(three, [dict(ravel=r) for r in (True, False)])
    out["translation"] = Scenario(translation, [dict(shape=s, axis=a, kind=k) for s, a in shapes + [((1,), None), ((1, 3), None)] for k in ARRAYS])
    single = [(s, a) for s, a in shapes + [((1,), 0), ((3, 1), 1)] if isinstance(a, int)]
    out["jumping"] = Scenario(jumping, [dict(shape=s, axis=a, kind=k) for s, a in single for k in ARRAYS])
    out["local"] = Scenario(local, [dict(shape=s, axis=a, kind=k) for s, a in shapes + [((1,), 0)] for k in ARRAYS], max_dev=None if thorough else 5)
    out["cauchy"] = Scenario(cauchy, [dict(name=n) for n in params.LEAVES if n != "constant"], max_dev=None if thorough else 3)
    out["mutation_choice"] = Scenario(mutation_choice, [dict(default=d, kind=k) for d in (True, False) for k in ARRAYS if k != "percoord"], max_dev=5 if thorough else 3)
    out["recombination"] = Scenario(recombination, [dict(name=n) for n in params.LEAVES])
    kinds = params.KINDS + ["scalar", "array-bounds", "choice", "transition", "crossover", "log-bounds"]
    out["lineage"] = Scenario(lineage, [dict(kind=k, depth=3 if thorough else 2) for k in kinds])
    methods = ["discrete_mutation", "doerr_discrete_mutation", "doubledoerr_discrete_mutation", "rls_mutation", "portfolio_discrete_mutation"]
    dims = (1, 2, 3, 4, 5, 7) if thorough else (1, 2, 3, 5)
    out["discrete_mutation"] = Scenario(
        discrete_mutation,
        [
            dict(method=m, dim=d, arity=a)
            for m in methods
            for d in dims
            for a in (2, 3, 5, 500)
            if not (m == "discrete_mutation" and d == 1)
        ],
        max_dev=4 if thorough else 2,
    )
    types = ["none", "max", "min", "onepoint", "twopoint", "rand", "rotation"]
    out["discrete_crossover"] = Scenario(discrete_crossover, [dict(kind=k, dim=d) for k in types for d in ((2, 3, 5, 7) if not thorough else range(2, 9))], max_dev=7 if thorough else 5)
    kinds_de: tp.List[tp.Any] = [0.5, 0.0, 1.0, "random", "twopoints", "onepoint", "rotated_twopoints", "voronoi"]
    out["de_crossover"] = Scenario(de_crossover, [dict(kind=k, dim=d) for k in kinds_de for d in range(1, 8 if thorough else 7)], max_dev=None if thorough else 6)
    return out
