"""C19: standardized coordinates and values convert back and forth exactly."""
import itertools
import pickle
import typing as tp

import numpy as np
import nevergrad as ng
from mc import params
from mc.engine import Chooser
from mc.lib import check, snap
from mc.main import Scenario

RULE = (
    "an execution writes all the coordinates of a grid, then all the values of a list, in instances of one parametrization, and reads them back; "
    "parametrizations are a catalogue of leaves (scalars, arrays, logs, angles, choices with every kind of bounds and casting) and all their "
    "pairs and some triples in every kind of container. A state is a (parametrization, coordinates or value)."
)
ASSUMPTIONS = [
    "conversions are compared up to rounding errors (1e-6)",
    "for stochastic choices the coordinates are compared instead of the drawn values",
]
GRID = [-30.0, -2.0, -0.6, 0.0, 0.3, 1.1, 25.0]
SMALL = [-2.0, 0.0, 0.3, 25.0]


def flat(param: ng.p.Parameter, reference: ng.p.Parameter) -> np.ndarray:
    data = param.get_standardized_data(reference=reference)
    check(isinstance(data, np.ndarray) and data.ndim == 1, f"coordinates are not a vector: {data!r}", key="vector")
    return data


def close(a: np.ndarray, b: np.ndarray, tol: float = 1e-6) -> bool:
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a))))


def references(param: ng.p.Parameter) -> tp.List[ng.p.Parameter]:
    """the parametrization, and instances which were mutated (other values, other sigmas)"""
    other = param.spawn_child()
    other.mutate()
    last = other.spawn_child()
    last.mutate()
    return [param, other, last]


def check_fresh(param: ng.p.Parameter, dim: int) -> None:
    for fresh in [param, param.spawn_child(), param.copy(), pickle.loads(pickle.dumps(param)).spawn_child()]:
        data = flat(fresh, param)
        check(data.size == dim and param.dimension == dim, f"dimension {param.dimension} but {data.size} coordinates", key="dimension")
        check(not data.any(), f"the coordinates of a fresh instance are {data}", key="fresh")


def roundtrip(param: ng.p.Parameter, inst: ng.p.Parameter, ref: ng.p.Parameter, stochastic: bool, name: str) -> np.ndarray:
    """reading the coordinates and writing them into a fresh instance gives back the value"""
    read = flat(inst, ref)
    check(np.isfinite(read).all(), f"coordinates {read} of {name}", key="finite")
    value = inst.value
    check(close(flat(inst, ref), read), f"reading the value changes the coordinates of {name}", key="reading")
    for fresh in (param.spawn_child(), ref.spawn_child()):
        out = fresh.set_standardized_data(read, reference=ref)
        check(out is fresh, "set_standardized_data does not return the instance", key="returned")
        check(close(flat(fresh, ref), read), f"coordinates {read} written as {flat(fresh, ref)} for {name}", key="coordinates")
        if not stochastic:
            check(params.same_value(value, fresh.value), f"value {value} of {name} comes back as {fresh.value}", key="value")
    return read


def leaf(ch: Chooser, name: str, ref: int) -> None:
    spec = params.LEAVES[name]
    param = params.build(name)
    dim = param.dimension
    if not ref:
        check(spec.valid(param.value), f"initial value {param.value!r}", key="initial")
        check_fresh(param, dim)
    reference = references(param)[ref]
    ref_snap = snap(reference.value)
    for data in params.coordinates(dim, GRID):
        inst = param.spawn_child()
        inst.set_standardized_data(data, reference=reference)
        what = f"{name} at {data}"
        check(spec.valid(inst.value), f"invalid value {inst.value!r} for {what}", key="valid")
        ch.state("coordinates", data.tolist(), snap(inst.value))
        read = roundtrip(param, inst, reference, spec.stochastic, what)
        if spec.identity:
            check(close(read, data), f"{what}: the coordinates are read as {read}", key="identity")
    for value in spec.values:
        inst = param.spawn_child(new_value=value)
        what = f"{name} with value {value!r}"
        check(params.same_value(value, inst.value), f"{what}: the value is read as {inst.value!r}", key="set")
        ch.state("value", snap(value))
        read = roundtrip(param, inst, reference, spec.stochastic, what)
        if spec.stochastic and spec.positional is not None:  # the option which was set is the likeliest one
            index = spec.positional(value)
            weights = flat(inst, param)
            check(weights.size == 1 or int(np.argmax(weights)) == index, f"{what}: weights {weights}", key="weights")
            check(weights.size == 1 or np.sum(weights == weights.max()) == 1, f"{what}: weights {weights}", key="weights")
    check(snap(reference.value) == ref_snap, "the reference was modified", key="reference")


def composed(ch: Chooser, kind: str, names: tp.Tuple[str, ...]) -> None:
    specs = [params.LEAVES[n] for n in names]
    param, leaves = params.composite(kind, names)
    stochastic = any(s.stochastic for s in specs)
    dims = [p.dimension for p in leaves(param)]
    dim = sum(dims)
    check_fresh(param, dim)
    reference = references(param)[1]
    for ref in (param, reference):
        # the coordinates of the leaves are concatenated in an order
        blocks: tp.Dict[int, tp.Tuple[int, int]] = {}
        center = param.spawn_child()
        center.set_standardized_data(np.zeros(dim), reference=ref)
        before = [flat(x, r) for x, r in zip(leaves(center), leaves(ref))]
        for k in range(dim):
            data = np.zeros(dim)
            data[k] = 1.3
            inst = param.spawn_child()
            inst.set_standardized_data(data, reference=ref)
            moved = [
                i
                for i, (x, r, b) in enumerate(zip(leaves(inst), leaves(ref), before))
                if np.abs(flat(x, r) - b).max(initial=0) > 1e-9
            ]
            check(len(moved) <= 1, f"coordinate {k} of {kind} {names} moves {len(moved)} leaves", key="blocks")
            for i in moved:
                blocks.setdefault(i, (k, k))
                blocks[i] = (blocks[i][0], k)
        for i, (first, last) in blocks.items():
            check(last - first < dims[i], f"coordinates of the leaf {i} of {kind} {names} are not contiguous", key="blocks")
        for data in params.coordinates(dim, SMALL, full=2):
            inst = param.spawn_child()
            inst.set_standardized_data(data, reference=ref)
            what = f"{kind} {names} at {data}"
            ch.state("coordinates", data.tolist(), ref is param)
            for s, x in zip(specs, leaves(inst)):
                check(s.valid(x.value), f"invalid value {x.value!r} for {what}", key="valid")
            check(
                params.same_value(inst.value, params.composite_value(kind, [x.value for x in leaves(inst)])),
                f"{what}: {inst.value}",
                key="structure",
            )
            read = roundtrip(param, inst, ref, stochastic, what)
            parts = [flat(x, r) for x, r in zip(leaves(inst), leaves(ref))]
            orders = [o for o in itertools.permutations(range(len(names))) if close(np.concatenate([parts[i] for i in o] + [np.array([])]), read)]
            check(orders, f"the coordinates of {what} are not the ones of its leaves", key="concatenation")
            starts = [i for i in sorted(blocks, key=lambda i: blocks[i])]
            ok = any([i for i in o if i in blocks] == starts for o in orders)
            check(ok, f"the order of the coordinates depends on the values for {what}", key="order")
            if all(s.identity for s in specs):
                check(close(read, data), f"{what}: the coordinates are read as {read}", key="identity")
    for values in itertools.product(*[s.values[:2] + s.values[-1:] for s in specs]):
        expected = params.composite_value(kind, values)
        inst = param.spawn_child(new_value=expected)
        ch.state("value", snap(expected))
        check(params.same_value(inst.value, expected), f"value {expected} read as {inst.value}", key="set")
        roundtrip(param, inst, reference, stochastic, f"{kind} {names} with {expected}")


def pickled(ch: Chooser, kind: str, names: tp.Tuple[str, ...]) -> None:
    """the order is the same for every instance, fresh or not, before or after the first use"""
    one, _ = params.composite(kind, names)
    two, _ = params.composite(kind, names)
    back = pickle.loads(pickle.dumps(two))
    stochastic = any(params.LEAVES[n].stochastic for n in names)
    for data in params.coordinates(one.dimension, SMALL, full=2):
        values = []
        for p in (one, two, back, two.copy()):
            inst = p.spawn_child()
            inst.set_standardized_data(data, reference=p)
            values.append(inst)
        ch.state("instances", data.tolist())
        for other in values[1:]:
            a, b = flat(values[0], one), other.get_standardized_data(reference=one)
            check(close(a, b), f"coordinates {data} are read as {a} and {b}", key="instances")
            if not stochastic:
                check(params.same_value(values[0].value, other.value), f"{data} gives {values[0].value} and {other.value}", key="instances")


def wrong_sizes(ch: Chooser, kind: str, names: tp.Tuple[str, ...]) -> None:
    """coordinates which are not of the right dimension are refused"""
    param, _ = params.composite(kind, names)
    dim = param.dimension
    for size in range(dim + 3):
        if size == dim:
            continue
        inst = param.spawn_child()
        ch.state("size", size)
        try:
            inst.set_standardized_data(np.ones(size), reference=param)
        except Exception:  # pylint: disable=broad-except
            continue
        check(False, f"{size} coordinates are accepted by {kind} {names} of dimension {dim}", key="sizes")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    names = list(params.LEAVES)
    core = params.CORE
    pairs = [
        {"kind": kind, "names": (a, b)}
        for i, a in enumerate(core)
        for j, b in enumerate(core)
        for k, kind in enumerate(params.KINDS)
        if thorough or (i + 2 * j + 5 * k) % 15 == 0
    ]
    triples = [
        {"kind": kind, "names": (core[i], core[(i + s) % len(core)], core[(i + 3 * s) % len(core)])}
        for i in range(len(core))
        for s in ((1, 2, 5, 7) if thorough else (3,))
        for k, kind in enumerate(params.KINDS)
        if thorough or (i + k) % 3 == 0
    ]
    some = [{"kind": kind, "names": (core[i], core[(i + 7) % len(core)], core[(i + 11) % len(core)])} for i in range(len(core)) for kind in params.KINDS]
    return {
        "leaf": Scenario(leaf, [{"name": n, "ref": r} for n in names for r in range(3)]),
        "composed": Scenario(composed, pairs + triples),
        "instances": Scenario(pickled, some),
        "wrong_sizes": Scenario(wrong_sizes, some[:: 1 if thorough else 4]),
    }
