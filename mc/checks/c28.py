"""C28: test functions are deterministic transforms of their core function."""
import itertools
import math
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.functions import ArtificialFunction, ExperimentFunction, FarOptimumFunction, corefuncs
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario
from mc.rng import Chosen

RULE = (
    "an execution builds one artificial function for an explored combination of options and a seed, with a core function of the check which records the blocks it receives, and evaluates it in explored orders "
    "on a grid of points: the transform is identified from the outside (each block is an affine function of its own variables) and compared to what the options announce. Core functions are compared to their "
    "textbook definitions on grids, noise to its formula for all the draws of a grid, and copies are driven through all sequences of operations. A state is a function with the evaluations made so far."
)
ASSUMPTIONS = ["the noise of the core functions st1, st10 and st100 comes from the global random state, and is not covered", "functions of real problems (images, games, simulators...) are not covered"]

BLOCKS: tp.List[np.ndarray] = []


def probe(x: np.ndarray) -> float:
    BLOCKS.append(np.array(x, copy=True))
    return float(sum((k + 1.5) * v for k, v in enumerate(x)) + 0.25 * sum(v * v for v in x))


def install() -> None:
    if "mc_probe" not in corefuncs.registry:
        corefuncs.registry.register(_named(probe))


def _named(fn: tp.Any) -> tp.Any:
    def mc_probe(x: np.ndarray) -> float:
        return fn(x)  # type: ignore

    return mc_probe


AGG: tp.Dict[str, tp.Callable[[tp.Sequence[float]], float]] = {"max": max, "mean": lambda v: sum(v) / len(v), "sum": sum}


def build(seed: int, **opts: tp.Any) -> ArtificialFunction:
    np.random.seed(seed)
    install()
    func = ArtificialFunction("mc_probe", **opts)
    func.parametrization.random_state.seed(seed)
    return func


def arguments(func: ArtificialFunction, x: np.ndarray, opts: tp.Dict[str, tp.Any]) -> tp.Tuple[np.ndarray, ...]:
    if not opts.get("split"):
        return (x,)
    d = opts["block_dimension"]
    return tuple(x[k : k + d] for k in range(0, len(x), d))


def blocks_at(func: ArtificialFunction, x: np.ndarray, opts: tp.Dict[str, tp.Any]) -> tp.Tuple[tp.List[np.ndarray], float]:
    BLOCKS.clear()
    saved = x.copy()
    value = func(*arguments(func, x, opts))
    check(np.array_equal(saved, x), f"the function modifies its input {saved} -> {x}, {opts}", key="input")
    return [b.copy() for b in BLOCKS], value


def structure(ch: Chooser, block_dimension: int, num_blocks: int, useless: int, seeds: int) -> None:
    opts: tp.Dict[str, tp.Any] = dict(block_dimension=block_dimension, num_blocks=num_blocks, useless_variables=useless)
    opts["rotation"] = ch.choose([False, True], "rotation")
    opts["translation_factor"] = ch.choose([1.0, 0.0, 2.5], "translation")
    opts["aggregator"] = ch.choose(["max", "mean", "sum"], "aggregator")
    if not useless and ch.flag("split"):
        opts["split"] = True
    if ch.flag("bounded"):
        opts["bounded"] = True
    if ch.flag("expo"):
        opts["expo"] = 3.0
    seed = ch.choose(range(seeds), "seed")
    func = build(seed, **opts)
    dim = block_dimension * num_blocks + useless
    check(func.dimension == dim == func.parametrization.dimension, f"dimension {func.dimension}, {opts}", key="dimension")
    zero = np.zeros(dim)
    base, value0 = blocks_at(func, zero, opts)
    check(len(base) == num_blocks and all(b.shape == (block_dimension,) for b in base), f"blocks {base}, {opts}", key="blocks")
    jac = np.zeros((num_blocks, block_dimension, dim))
    step = 0.75
    for k in range(dim):
        point = zero.copy()
        point[k] = step
        moved, _ = blocks_at(func, point, opts)
        for b in range(num_blocks):
            jac[b, :, k] = (moved[b] - base[b]) / step
    used = [[k for k in range(dim) if np.abs(jac[b, :, k]).max() > 1e-9] for b in range(num_blocks)]
    flat = [k for u in used for k in u]
    check(all(len(u) == block_dimension for u in used) and len(set(flat)) == len(flat), f"blocks use the variables {used}, {opts}", key="variables")
    check(flat == sorted(flat), f"blocks overlap: {used}, {opts}", key="order")
    check(len(set(range(dim)) - set(flat)) == useless, f"{useless} useless variables announced, {used} used", key="useless")
    for b in range(num_blocks):
        mat = jac[b][:, used[b]]
        if opts["rotation"]:
            check(np.allclose(mat @ mat.T, np.eye(block_dimension), atol=1e-9), f"not a rotation: {mat}, {opts}", key="rotation")
        else:
            check(np.allclose(mat, np.eye(block_dimension), atol=1e-9), f"block {b} is transformed by {mat}, {opts}", key="identity")
        if opts["translation_factor"] == 0:
            check(np.allclose(base[b], 0), f"translation {base[b]} for a factor 0", key="translation")
        else:
            check(bool(np.abs(base[b]).min() > 0) and (num_blocks == 1 or not np.allclose(base[0], base[-1])), f"translations {base}", key="translated")
    # affine everywhere, pure, and aggregated as announced
    rng = [-3.0, 0.0, 1.5]
    points = [np.array(p) for p in itertools.islice(itertools.product(rng, repeat=dim), 0, 3**dim, max(1, 3**dim // 14))]
    first = []
    for point in points:
        got, value = blocks_at(func, point, opts)
        expected = [base[b] + jac[b] @ point for b in range(num_blocks)]
        check(np.allclose(got, expected, atol=1e-7), f"blocks {got} instead of {expected} at {point}, {opts}", key="affine")
        results = [probe(b) for b in got]
        check(math.isclose(value, AGG[opts["aggregator"]](results), rel_tol=1e-9, abs_tol=1e-9), f"value {value} for blocks of values {results}, {opts}", key="aggregated")
        first.append(value)
        ch.state(repr(sorted(opts.items())), seed, point.tobytes())
    check(blocks_at(func, zero, opts)[1] == value0, "another value at zero", key="pure")
    for point, value in zip(points[::-1], first[::-1]):
        check(func(*arguments(func, point, opts)) == value, f"another value at {point}, {opts}", key="pure")
        cand = func.parametrization.spawn_child(new_value=(arguments(func, point, opts), {}) if opts.get("split") else point)
        check(math.isclose(func.evaluation_function(cand), value, rel_tol=1e-9, abs_tol=1e-9), f"oracle {func.evaluation_function(cand)} instead of {value}", key="oracle")
    # same seed, same function
    other = build(seed, **opts)
    check([other(*arguments(other, p, opts)) for p in points] == first, f"same seed, other function, {opts}", key="seeded")
    if opts["translation_factor"]:
        third = build(seed + 77, **opts)
        check([third(*arguments(third, p, opts)) for p in points] != first, f"other seed, same function, {opts}", key="random")
        scale = build(seed, **{**opts, "translation_factor": 2 * opts["translation_factor"]})
        twice, _ = blocks_at(scale, zero, opts)
        check(np.allclose(np.array(twice), 2 * np.array(base)), f"translations {twice} for a factor twice as large as {base}", key="factor")


def noise(ch: Chooser, level: float, dissymmetry: bool, dim: int) -> None:
    opts: tp.Dict[str, tp.Any] = dict(block_dimension=dim, useless_variables=ch.choose([0, 1], "useless"), noise_level=level, noise_dissymmetry=dissymmetry, rotation=ch.flag("rotation"))
    func = build(3, **opts)
    clean = build(3, **{**opts, "noise_level": 0.0, "noise_dissymmetry": False})
    total = func.dimension
    check(func.parametrization.function.deterministic == (level == 0), "a noisy function is announced as deterministic", key="announced")
    x = np.full(total, ch.choose([-1.0, 2.0, 0.25], "point"))
    fx = clean(x)
    cand = func.parametrization.spawn_child(new_value=x)
    check(func.evaluation_function(cand) == fx, f"noise in the evaluation function: {func.evaluation_function(cand)} instead of {fx}", key="evaluation")
    draws: tp.List[float] = []
    rng = Chosen(ch, [0.2, 0.9], max_draws=total + 1)
    normal = rng._normal

    def recorded() -> float:
        draws.append(normal())
        return draws[-1]

    rng._normal = recorded  # type: ignore
    func._parametrization._random_state = rng
    for repeat in range(2):
        draws.clear()
        value = func(x)
        blocks, _ = blocks_at(clean, x, {})
        corner = float(blocks[0][0])
        if level == 0 or (dissymmetry and corner > 0):
            check(value == fx and (not draws or level > 0), f"noisy value {value} instead of {fx} ({opts})", key="no noise")
        else:
            check(len(draws) == total + 1, f"{len(draws)} draws", key="draws")
            factor = level * ((1.0 + 100.0 * corner) if dissymmetry else 1.0)
            expected = fx + factor * draws[-1] * (clean(x + np.array(draws[:-1])) - fx)
            check(math.isclose(value, expected, rel_tol=1e-9, abs_tol=1e-9), f"noisy value {value} instead of {expected} (noise-free: {fx}) for {opts} and draws {draws}", key="formula")
        ch.state(repr(sorted(opts.items())), repr(x), repeat, repr(draws))
    check(func.evaluation_function(cand) == fx, "noise in the evaluation function", key="evaluation")


def copies(ch: Chooser, kind: str, depth: int) -> None:
    np.random.seed(5)
    install()
    func: tp.Any
    if kind == "far":
        multi = ch.flag("multiobjective")
        func = FarOptimumFunction(multiobjective=multi)
        bounds = func.multiobjective_upper_bounds
        check(multi == (bounds is not None) and (not multi or list(bounds) == [160, 200]), f"upper bounds {bounds} of a {'multi' if multi else 'single-'}objective function", key="bounds")
    elif kind == "custom":
        func = ExperimentFunction(_custom, ng.p.Array(shape=(2,)).set_name("custom"))
    else:
        opts = {"noisy": dict(noise_level=0.5), "plain": {}, "rotated": dict(rotation=True, useless_variables=1), "split": dict(split=True, num_blocks=2)}[kind]
        func = ArtificialFunction("mc_probe", block_dimension=2, **opts)
    func.parametrization.random_state.seed(3)
    func.parametrization.register_cheap_constraint(_constraint)
    point = [np.full(3 if kind == "rotated" else 2, 0.5)] * (2 if kind == "split" else 1)

    def observe(f: tp.Any) -> tp.Any:
        bounds = f.multiobjective_upper_bounds
        cand = f.parametrization.spawn_child(new_value=(tuple(point), {}) if kind == "split" else point[0])
        return (
            f.evaluation_function(cand) if bounds is None or kind == "far" else 0.0,
            sorted(map(repr, f.descriptors.items())),
            len(f.parametrization._constraint_checkers),
            f.parametrization.name,
            f.parametrization.satisfies_constraints(),
            None if bounds is None else list(bounds),
            f.parametrization.function.deterministic,
            f.dimension,
        )

    before = observe(func)
    check(before[2] == 1, "lost constraint", key="constraint")
    twin: tp.Any = None
    copied: tp.Any = None
    mine: tp.Any = None
    story: tp.List[str] = []
    for _ in range(depth):
        ops = ["copy"] + (["call copy", "constrain copy", "describe copy", "seed copy", "bound copy"] + ["rename copy"] * (kind != "split") if twin is not None else []) + ["call", "describe"]
        op = ch.choose(ops, "operation")
        story.append(op)
        if op == "copy":
            twin = func.copy()
            twin.parametrization.random_state.seed(3)
            copied = observe(twin)
            mine = observe(func)
            check(copied[1:] == mine[1:], f"the copy differs: {copied} instead of {mine} after {story}", key="same")
            check(copied[0] == mine[0] or "rotated" in kind or kind in ("noisy", "plain", "split"), f"the copy has value {copied[0]} instead of {mine[0]} after {story}", key="value")
            again = func.copy()
            again.parametrization.random_state.seed(3)
            check(observe(again) == copied, f"two copies with the same seed differ after {story}", key="copies")
        elif op == "call copy":
            twin(*point)
        elif op == "constrain copy":
            twin.parametrization.register_cheap_constraint(_impossible)
        elif op == "describe copy":
            twin.add_descriptors(extra=len(story))
        elif op == "seed copy":
            twin.parametrization.random_state.seed(99)
        elif op == "rename copy":
            twin.parametrization = ng.p.Array(shape=(len(point[0]),)).set_name("other")
        elif op == "bound copy":
            twin.multiobjective_upper_bounds = np.array([1.0, 2.0])
        elif op == "call":
            func(*point)
        else:
            func.add_descriptors(mark=len(story))
            before = observe(func)
        check(observe(func) == before, f"the original becomes {observe(func)} instead of {before} after {story}", key="original")
        if twin is not None and op in ("call", "describe"):
            now = observe(twin)
            if now != copied and all(o in ("copy", "call", "describe") for o in story):
                check(False, f"the copy becomes {now} instead of {copied} after {story}", key="copy")
        ch.state(kind, story)


def _custom(x: np.ndarray) -> float:
    return float(np.sum(x**2))


def _constraint(x: tp.Any) -> bool:
    return True


def _impossible(x: tp.Any) -> bool:
    return False


def hashing(ch: Chooser, level: float) -> None:
    """the value is random but depends on the input only, and the random state of the optimizer does not depend on the evaluations"""
    install()
    np.random.seed(5)
    func = ArtificialFunction("mc_probe", block_dimension=1, hashing=True, noise_level=level)
    func.parametrization.random_state.seed(ch.choose([0, 1], "seed"))
    values: tp.Dict[float, float] = {}
    before = None
    for _ in range(3):
        s = ch.choose([0.5, -1.0, 1.5], "value")
        cand = func.parametrization.spawn_child(new_value=np.array([s]))
        value = func.evaluation_function(cand)
        check(values.setdefault(s, value) == value, f"{s} has values {values[s]} and {value}", key="hash")
        state = repr(func.parametrization.random_state.get_state())
        check(before is None or before == state, "an evaluation changes the random state of the optimization", key="hash state")
        before = state
        if level:
            noisy = [func(np.array([s])) for _ in range(4)]
            check(len(set(noisy)) == 4, f"constant noise {noisy}", key="hash noise")
            before = None
        ch.state(level, s, sorted(values))
    check(len(set(values.values())) == len(values), f"collisions {values}", key="collision")


# ------------------------------------------------------------------------------------------------------------ core functions
Vec = tp.Sequence[float]


def _w(n: int) -> tp.List[float]:
    return [10 ** (6.0 * k / (n - 1)) if n > 1 else 1.0 for k in range(n)]


def _s(x: Vec) -> float:
    return sum(v * v for v in x)


DEFINITIONS: tp.Dict[str, tp.Callable[[Vec], float]] = {
    "sphere": _s,
    "DelayedSphere": _s,
    "sphere1": lambda x: sum((v - 1) ** 2 for v in x),
    "sphere2": lambda x: sum((v - 2) ** 2 for v in x),
    "sphere4": lambda x: sum((v - 4) ** 2 for v in x),
    "cigar": lambda x: x[0] ** 2 + 1e6 * _s(x[1:]),
    "altcigar": lambda x: x[-1] ** 2 + 1e6 * _s(x[:-1]),
    "discus": lambda x: 1e6 * x[0] ** 2 + _s(x[1:]),
    "ellipsoid": lambda x: sum(w * v * v for w, v in zip(_w(len(x)), x)),
    "altellipsoid": lambda x: sum(w * v * v for w, v in zip(_w(len(x)), x[::-1])),
    "rastrigin": lambda x: sum(10 - 10 * math.cos(2 * math.pi * v) + v * v for v in x),
    "doublelinearslope": lambda x: abs(sum(x)),
    "rosenbrock": lambda x: sum(100 * (a * a - b) ** 2 + (a - 1) ** 2 for a, b in zip(x, x[1:])),
    "ackley": lambda x: -20 * math.exp(-0.2 * math.sqrt(_s(x) / len(x))) - math.exp(sum(math.cos(2 * math.pi * v) for v in x) / len(x)) + 20 + math.e,
    "schwefel_1_2": lambda x: _s([sum(x[: k + 1]) for k in range(len(x))]),
    "griewank": lambda x: 1 + _s(x) / 4000 - math.prod(math.cos(v / math.sqrt(k + 1)) for k, v in enumerate(x)),
    "hm": lambda x: sum(v * v * (1.1 + math.cos(1 / v)) if v else 0.0 for v in x),
    "maxdeceptive": lambda x: max(3 * v * v - 2 / (3 ** ((v - 2) ** 2) + 0.1) for v in x),
    "sumdeceptive": lambda x: sum(3 * v * v - 2 / (3 ** ((v - 2) ** 2) + 0.1) for v in x),
    "st0": lambda x: sum(39.16599 + 0.5 * (v**4 - 16 * v * v + 5 * v) for v in x),
    "slope": sum,
    "linear": lambda x: math.tanh(x[0]),
    "genzgaussianpeakintegral": lambda x: math.exp(-_s(x) / 4),
    "minusgenzgaussianpeakintegral": lambda x: -math.exp(-_s(x) / 4),
}
# position and value of the minimum
MINIMA: tp.Dict[str, tp.Tuple[float, float]] = {n: (0.0, 0.0) for n in (
    "sphere DelayedSphere cigar altcigar discus ellipsoid altellipsoid rastrigin doublelinearslope ackley schwefel_1_2 griewank hm stepellipsoid stepdoublelinearslope bentcigar bucherastrigin "
    "deceptivepath deceptivemultimodal"
).split()}
MINIMA.update(sphere1=(1.0, 0.0), sphere2=(2.0, 0.0), sphere4=(4.0, 0.0), rosenbrock=(1.0, 0.0), minusgenzgaussianpeakintegral=(0.0, -1.0))
AT_LEAST_TWO = {"bentcigar", "bucherastrigin", "deceptivepath", "deceptivemultimodal", "deceptiveillcond", "rosenbrock"}


def core(ch: Chooser, name: str, dim: int, grid: tp.Sequence[float]) -> None:
    fn = corefuncs.registry[name]
    head = ch.choose(list(grid), "first")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for tail in itertools.product(grid, repeat=dim - 1):
            x = np.array((head,) + tail)
            saved = x.copy()
            value = fn(x)
            check(np.array_equal(x, saved), f"{name} modifies its input", key=f"input {name}")
            check(fn(x) == value or value != value, f"{name}({x}) is not deterministic", key=f"pure {name}")
            if name in DEFINITIONS:
                expected = DEFINITIONS[name](tuple(map(float, x)))
                check(math.isclose(value, expected, rel_tol=1e-9, abs_tol=1e-9), f"{name}({x}) is {value} instead of {expected}", key=f"definition {name}")
            if name in MINIMA:
                where, low = MINIMA[name]
                check(value >= low - 1e-9, f"{name}({x}) is {value}, lower than the minimum {low}", key=f"minimum {name}")
                if (x == where).all():
                    check(abs(value - low) < 1e-9, f"{name} is {value} at its optimum {x}, instead of {low}", key=f"optimum {name}")
            ch.state(name, x.tobytes())


def translated(ch: Chooser, names: tp.List[str], rotation: bool) -> None:
    """the optimum of the artificial function is reached at the translated optimum of the core function"""
    name = ch.choose(names, "name")
    where, low = MINIMA[name]
    blocks = ch.choose([1, 2], "blocks")
    useless = ch.choose([0, 2], "useless")
    aggregator = ch.choose(["max", "mean", "sum"], "aggregator")
    seed = ch.choose([0, 1, 2], "seed")
    np.random.seed(seed)
    func = ArtificialFunction(name, block_dimension=2, num_blocks=blocks, useless_variables=useless, rotation=rotation, aggregator=aggregator)
    func.parametrization.random_state.seed(seed)
    ref = build(seed, block_dimension=2, num_blocks=blocks, useless_variables=useless, rotation=rotation, aggregator=aggregator)
    dim = func.dimension
    base = np.array(blocks_at(ref, np.zeros(dim), {})[0]).ravel()
    jac = np.array([np.array(blocks_at(ref, np.eye(dim)[k], {})[0]).ravel() - base for k in range(dim)]).T
    best = np.linalg.lstsq(jac, np.full(2 * blocks, where) - base, rcond=None)[0]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        value = func(best)
        expected = low * (blocks if aggregator == "sum" else 1)
        if not name.startswith("deceptive"):  # not continuous
            check(abs(value - expected) < 1e-6, f"{name} has value {value} instead of {expected} at its translated optimum", key=f"translated {name}")
        for shift in (0.5, -1.0):
            for k in range(dim):
                point = best.copy()
                point[k] += shift
                check(func(point) >= expected - 1e-6, f"{name} has a better value {func(point)} than {expected} at {point}", key=f"better {name}")
        ch.state(name, blocks, useless, aggregator, seed, rotation)


def discrete(ch: Chooser, name: str, dim: int, arity: int) -> None:
    fn = corefuncs.DiscreteFunction(name, arity)
    best = [k % arity for k in range(dim)]
    low = None
    for x in itertools.product(range(arity), repeat=dim):
        good = sum(a == b for a, b in zip(x, best))
        lead = next((k for k in range(dim) if x[k] != best[k]), dim)
        m = dim // 4
        expected = {"onemax": dim - good, "leadingones": dim - lead, "jump": dim - m - good if good == dim or good <= dim - m else good}[name]
        value = fn(np.array(x, dtype=float))
        check(value == expected, f"{name}({x}) is {value} instead of {expected}, arity {arity}", key=f"discrete {name}")
        check(fn(np.array(x) + 0.3) == value, f"{name} is not rounded", key="rounded")
        low = value if low is None else min(low, value)
        ch.state(name, dim, arity, x)
    check(fn(np.array(best)) == low, f"the optimum of {name} is not {best}", key="discrete optimum")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    install()
    deep = tier == "thorough"
    st = [dict(block_dimension=b, num_blocks=n, useless=u, seeds=4 if deep else 2) for b in (1, 2, 3) for n in (1, 2, 3) for u in (0, 1, 3) if b * n + u <= (9 if deep else 7)]
    no = [dict(level=v, dissymmetry=d, dim=k) for v in (0.0, 0.5, 3.0) for d in (False, True) for k in ((1, 2, 3) if deep else (1, 2))]
    grid = [-5.0, -2.0, -1.0, -0.5, -1e-3, 0.0, 0.25, 1.0, 1.5, 2.0, 4.0, 5.0]
    if deep:
        grid += [-3.3, -0.01, 1e-6, 0.7, 3.0, 10.0]
    names = sorted(n for n in corefuncs.registry if n not in ("st1", "st10", "st100", "mc_probe"))
    co = [dict(name=n, dim=d, grid=grid if d < 4 else grid[::2]) for n in names for d in ((1, 2, 3, 4) if deep else (1, 2, 3)) if d > 1 or n not in AT_LEAST_TWO]
    tr = [dict(names=sorted(set(MINIMA))[k::4], rotation=r) for k in range(4) for r in (False, True)]
    return {
        "structure": Scenario(structure, st),
        "noise": Scenario(noise, no),
        "copies": Scenario(copies, [dict(kind=k, depth=5 if deep else 4) for k in ("plain", "noisy", "rotated", "split", "far", "custom")]),
        "hashing": Scenario(hashing, [dict(level=v) for v in (0.0, 0.5)]),
        "core": Scenario(core, co),
        "translated": Scenario(translated, tr),
        "discrete": Scenario(discrete, [dict(name=n, dim=d, arity=a) for n in ("onemax", "leadingones", "jump") for d in range(1, 9 if deep else 7) for a in (2, 3)]),
    }
