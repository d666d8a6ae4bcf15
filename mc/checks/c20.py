"""C20: bounds, integer casting and scaling hold for every transform and value."""
import itertools
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.parametrization import transforms as trans
from mc import params
from mc.engine import Chooser
from mc.lib import check, snap
from mc.main import Scenario

RULE = (
    "an execution takes one bounded parametrization (or one transform) and applies it to all the internal coordinates of a dense grid with "
    "extremes, to all the values of a grid between its bounds (with the bounds themselves), and to values beyond the bounds; integer variables "
    "are explored for all the integers of small ranges. A state is a (parametrization, coordinate or value)."
)
ASSUMPTIONS = ["arctan, tanh and gaussian reach their bounds at infinity only: the inverse is checked strictly inside the bounds"]
DENSE = sorted(
    {s * x for s in (-1, 1) for x in (0.0, 1e-300, 1e-12, 1e-3, 0.1, 0.25, 0.5, 0.7, 1.0, 1.3, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 8.0, 12.0, 30.0, 1e3, 1e8, 1e15, 1e300)}
)
BOUNDS: tp.List[tp.Tuple[tp.Any, tp.Any]] = [
    (0.0, 1.0), (-1.0, 3.0), (-5.0, -2.0), (2.0, 2.5), (-1e6, 1e6), (1e-3, 2e-3), (0, 4), (-3, 3), (100.0, 101.0),
]  # fmt: skip
VECTORS: tp.List[tp.Tuple[tp.Any, tp.Any]] = [
    ([0.0, -2.0], [1.0, 5.0]), ([-1.0, 2.0], [3.0, 2.5]), ([-3.0, -3.0], [-2.0, 3.0]), ([0.0], [1.0]),
]  # fmt: skip


def inside(value: tp.Any, lower: tp.Any, upper: tp.Any, tol: float = 1e-9) -> bool:
    v = np.asarray(value, dtype=float)
    if np.isnan(v).any():
        return False
    if lower is not None and (v < np.asarray(lower) - tol * (1 + np.abs(lower))).any():
        return False
    return not (upper is not None and (v > np.asarray(upper) + tol * (1 + np.abs(upper))).any())


def fractions(lower: float, upper: float) -> tp.List[float]:
    return [lower + f * (upper - lower) for f in (0.001, 0.01, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 0.99, 0.999)]


def transform(ch: Chooser, method: str, lower: tp.Any, upper: tp.Any) -> None:
    """the transforms themselves"""
    make: tp.Dict[str, tp.Any] = {
        "bouncing": lambda: trans.Clipping(lower, upper, bounce=True),
        "clipping": lambda: trans.Clipping(lower, upper),
        "arctan": lambda: trans.ArctanBound(lower, upper),
        "tanh": lambda: trans.TanhBound(lower, upper),
        "gaussian": lambda: trans.CumulativeDensity(trans.bound_to_array(lower), trans.bound_to_array(upper)),
        "cauchy": lambda: trans.CumulativeDensity(trans.bound_to_array(lower), trans.bound_to_array(upper), density="cauchy"),
    }
    t = make[method]()
    low, up = [None if b is None else np.asarray(b, dtype=float).ravel() for b in (lower, upper)]
    size = max(1 if b is None else b.size for b in (low, up))
    low, up = [None if b is None else np.broadcast_to(b, (size,)) for b in (low, up)]
    grid = DENSE + [float("inf"), -float("inf")]
    span = [(-10.0 if low is None else low[k]) for k in range(size)], [(10.0 if up is None else up[k]) for k in range(size)]
    grid += [b + e * (u - b) for b, u in zip(*span) for e in (-1.5, -0.7, -0.01, 0, 0.01, 0.3, 0.7, 0.99, 1.0, 1.01, 1.7, 2.5)]
    grid = sorted(set(grid))
    previous = None
    for x in grid:
        for shape in [(size,), (3, size)]:
            arr = np.full(shape, x)
            keep = arr.copy()
            out = np.asarray(t.forward(arr))
            ch.state("forward", shape, x)
            check(np.array_equal(arr, keep), "the coordinates were modified", key="modified")
            check(out.shape == shape, f"shape {shape} becomes {out.shape}", key="shape")
            check(inside(out, low, up, 1e-12), f"{method} [{lower}, {upper}] gives {out} for {x}", key="inside")
        out = np.asarray(t.forward(np.full((size,), x)))
        if method != "bouncing":
            check(previous is None or (out >= previous - 1e-12 * (1 + np.abs(previous))).all(), f"{method} not monotone at {x}", key="monotone")
            previous = out
        else:  # what is beyond the bound comes back on the other side, at most once
            for k in range(size):
                lo, hi = (-np.inf if low is None else low[k]), (np.inf if up is None else up[k])
                expected = x
                if x > hi:
                    expected = max(lo, 2 * hi - x)
                elif x < lo:
                    expected = min(hi, 2 * lo - x)
                tol = 1e-9 * (1 + min(abs(x), 1e30))
                check(np.isinf(x) or abs(out[k] - expected) <= tol, f"{x} bounces to {out[k]} instead of {expected}", key="bounce")
        for k in range(size):
            strict = (low is None or x > low[k]) and (up is None or x < up[k])
            if method in ("bouncing", "clipping") and strict and size == 1:
                check(out[k] == x, f"{x} inside the bounds becomes {out[k]}", key="unchanged")
    values = list(zip(*[fractions(a, b) for a, b in zip(*span)]))
    for v in values + [tuple(reversed(v)) if size == 1 else v for v in values]:
        y = np.array(v)
        x = np.asarray(t.backward(y.copy()))
        ch.state("backward", v)
        check(np.isfinite(x).all(), f"{y} goes back to {x}", key="backward-finite")
        z = np.asarray(t.forward(x))
        scale = 1 if low is None or up is None else up - low
        check((np.abs(z - y) <= 1e-7 * scale + 1e-9 * np.abs(y)).all(), f"{method}: {y} comes back as {z}", key="inverse")
    if method not in ("bouncing", "clipping"):  # and the coordinate itself is recovered
        for x in (-2.0, -0.5, 0.0, 0.1, 1.0, 2.5):
            arr = np.full((size,), x)
            z = np.asarray(t.backward(t.forward(arr)))
            check((np.abs(z - x) < 1e-4).all(), f"coordinate {x} comes back as {z}", key="coordinate")
    for k in range(size):
        for side, b in (("lower", low), ("upper", up)):
            if b is None:
                continue
            for excess in (1e-3, 1.0, 1e6):
                y = np.array([s[len(s) // 2] for s in [fractions(a, c) for a, c in zip(*span)]])
                width = span[1][k] - span[0][k]
                y[k] = b[k] + excess * width * (1 if side == "upper" else -1)
                try:
                    t.backward(y)
                except ValueError:
                    continue
                check(False, f"{method} [{lower}, {upper}] accepts {y}", key="refuse")


def make(kind: str, method: str, lower: tp.Any, upper: tp.Any, sigma: tp.Optional[float], exponent: tp.Optional[float]) -> tp.Any:
    low, up = [None if b is None else np.asarray(b, dtype=float) for b in (lower, upper)]
    mid = (low + up) / 2 if low is not None and up is not None else (low + 1.5 if up is None else up - 1.5)
    if exponent is not None and low is not None and up is not None:
        mid = np.sqrt(low * up)
    if kind == "scalar":
        p: tp.Any = ng.p.Scalar(init=float(mid))
    else:
        shape = {"array": (2,), "matrix": (3, 2)}[kind]
        p = ng.p.Array(init=np.broadcast_to(mid, shape).copy())
    if sigma is not None:
        p.set_mutation(sigma=sigma)
    if exponent is not None:
        p.set_mutation(exponent=exponent)
    p.set_bounds(lower, upper, method=method)
    p.random_state = np.random.RandomState(3)
    return p


def layered(ch: Chooser, kind: str, method: str, lower: tp.Any, upper: tp.Any, sigma: tp.Optional[float], exponent: tp.Optional[float]) -> None:
    """bounded parameters"""
    p = make(kind, method, lower, upper, sigma, exponent)
    low, up = [None if b is None else np.asarray(b, dtype=float) for b in (lower, upper)]
    start = p.value
    check(inside(start, low, up), f"initial value {start}", key="initial")
    shape = np.shape(start)
    # bounds which are announced
    for announced, b in zip(p.bounds, (low, up)):
        check((announced is None) == (b is None), f"bounds {p.bounds}", key="bounds")
        check(b is None or np.allclose(announced, b), f"bounds {p.bounds} instead of {lower}, {upper}", key="bounds")
    scale = 1e3 if exponent is not None else np.inf
    previous = None
    for x in [g for g in DENSE if abs(g) <= scale]:
        c = p.spawn_child()
        c.set_standardized_data(np.full(p.dimension, x), reference=p)
        v = c.value
        ch.state("coordinate", x, snap(v))
        check(np.shape(v) == shape, f"shape {np.shape(v)}", key="shape")
        if method == "constraint":
            ok = inside(v, low, up, 0)
            check(c.satisfies_constraints() == ok, f"constraint for {v} in [{lower}, {upper}] is {not ok}", key="constraint")
        else:
            check(inside(v, low, up), f"{x} gives {v} out of [{lower}, {upper}]", key="inside")
        if method != "bouncing":
            check(previous is None or np.all(v >= previous - 1e-9 * (1 + np.abs(previous))), f"not monotone at {x}", key="monotone")
            previous = np.asarray(v)
        again = c.value
        check(np.array_equal(v, again), f"value {v} then {again}", key="stable")
        back = p.spawn_child(new_value=v) if method not in params.SURJECTIVE else None
        if back is not None:
            check(np.allclose(back.value, v), f"value {v} set as {back.value}", key="set")
    wl, wu = (low if low is not None else up - 3), (up if up is not None else low + 3)
    for f in (0.001, 0.1, 1 / 3, 0.5, 0.9, 0.999):
        v = wl + f * (wu - wl)
        v = float(v) if kind == "scalar" else np.broadcast_to(v, shape).copy()
        c = p.spawn_child(new_value=v)
        check(np.allclose(c.value, v, rtol=1e-6), f"value {v} set as {c.value}", key="inverse")
        data = c.get_standardized_data(reference=p)
        d = p.spawn_child().set_standardized_data(data, reference=p)
        check(np.allclose(d.value, v, rtol=1e-6), f"value {v} comes back as {d.value}", key="inverse")
    ends = [b for b in (low, up) if b is not None] if method not in params.SURJECTIVE else []
    for b in ends:  # the bounds themselves are allowed
        v = float(b) if kind == "scalar" else np.broadcast_to(b, shape).copy()
        c = p.spawn_child(new_value=v)
        check(np.allclose(c.value, v), f"bound {v} set as {c.value}", key="ends")
    for b, sign in ((low, -1), (up, 1)):
        if b is None:
            continue
        width = (up - low) if low is not None and up is not None else np.ones(np.shape(b))
        for k in range(1 if kind == "scalar" else int(np.prod(shape))):
            for excess in (0.01, 1.0, 100.0):
                inner = np.array(start, dtype=float)
                beyond = np.broadcast_to(b + sign * excess * width, shape)
                if kind == "scalar":
                    bad: tp.Any = float(beyond)
                else:
                    inner.ravel()[k] = beyond.ravel()[k]
                    bad = inner
                if exponent is not None and np.any(np.asarray(bad) <= 0):
                    continue
                c = p.spawn_child()
                ch.state("refused", snap(bad))
                try:
                    c.value = bad
                except ValueError:
                    check(np.array_equal(c.value, start), f"refused value {bad} was set", key="refused-set")
                    continue
                check(method == "constraint" and not c.satisfies_constraints(), f"{bad} is accepted", key="refuse")


def integers(ch: Chooser, kind: str, lower: int, upper: int, method: tp.Optional[str], sigma: tp.Optional[float]) -> None:
    """all the integers of the range are reached, including both ends"""
    if method is None:
        p: tp.Any = ng.p.Scalar(lower=lower, upper=upper) if kind == "scalar" else ng.p.Array(shape=(2,), lower=lower, upper=upper)
    else:
        mid = (lower + upper) / 2
        p = ng.p.Scalar(init=mid) if kind == "scalar" else ng.p.Array(init=[mid, mid])
        p.set_bounds(lower, upper, method=method)
    if sigma is not None:
        p.set_mutation(sigma=sigma)
    p.set_integer_casting()
    p.random_state = np.random.RandomState(3)
    reached = set()
    sig = float(np.max(p.sigma.value))
    if method in params.SURJECTIVE:
        grid = [x / 20 / sig for x in range(-200, 201)] + [x / sig for x in range(-2000, 2001, 50)]
    else:
        middle = (lower + upper) / 2 if method is None else (lower + upper) / 2
        grid = [(lower - 1 - middle + x * (upper - lower + 2) / 400) / sig for x in range(401)]
        grid += [s * x for s in (1, -1) for x in (1e3, 1e6, 1e12)]
    previous = None
    for x in sorted(grid):
        c = p.spawn_child()
        c.set_standardized_data(np.full(p.dimension, x), reference=p)
        v = c.value
        ch.state("coordinate", x, snap(v))
        first = v if kind == "scalar" else v[0]
        check(isinstance(v, int) if kind == "scalar" else v.dtype.kind == "i", f"value {v!r} is not an integer", key="type")
        check(lower <= first <= upper, f"{v} out of [{lower}, {upper}]", key="inside")
        if method not in (None, "bouncing"):
            check(previous is None or first >= previous, f"not monotone: {first} after {previous}", key="monotone")
        previous = first
        reached.add(int(first))
    missing = set(range(lower, upper + 1)) - reached
    check(not missing, f"integers {sorted(missing)} of [{lower}, {upper}] are never reached", key="reached")
    for v in range(lower, upper + 1):
        c = p.spawn_child(new_value=v if kind == "scalar" else np.array([v, lower]))
        ch.state("value", v)
        check(np.array_equal(c.value, v if kind == "scalar" else [v, lower]), f"{v} set as {c.value}", key="set")
        d = p.spawn_child().set_standardized_data(c.get_standardized_data(reference=p), reference=p)
        check(np.array_equal(d.value, c.value), f"{c.value} comes back as {d.value}", key="back")
    for v in (lower - 1, upper + 1, lower - 100, upper + 100):
        try:
            p.spawn_child(new_value=v if kind == "scalar" else np.array([lower, v]))
        except ValueError:
            continue
        check(False, f"{v} out of [{lower}, {upper}] is accepted", key="refuse")


def sampled(ch: Chooser, kind: str, method: str, lower: tp.Any, upper: tp.Any, integer: bool) -> None:
    """samples, mutations and recombinations, with extreme draws"""
    p = make(kind, method, lower, upper, None, None)
    if integer:
        p.set_integer_casting()

    class Draws(np.random.RandomState):
        level = 0.0

        def normal(self, loc: tp.Any = 0.0, scale: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
            return loc + scale * np.full(size, self.level) if size is not None else loc + scale * self.level

        def uniform(self, low: tp.Any = 0.0, high: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
            f = min(1 - 1e-12, max(1e-12, (self.level + 8) / 16))
            return low + (high - low) * (np.full(size, f) if size is not None else f)

    rng = Draws(3)
    p.random_state = rng
    for a, b in itertools.product([-8.0, -1.0, 0.0, 0.5, 8.0], repeat=2):
        rng.level = a
        one = p.sample()
        rng.level = b
        two = one.spawn_child()
        two.mutate()
        three = one.spawn_child()
        three.recombine(two, p)
        ch.state("draws", a, b)
        for c in (one, two, three):
            check(inside(c.value, lower, upper) or method == "constraint", f"{c.value} out of [{lower}, {upper}]", key="inside")
            check(not integer or np.asarray(c.value).dtype.kind == "i", f"{c.value} is not an integer", key="type")


def operations(ch: Chooser, ops: tp.Tuple[str, ...], bounded: bool, integer: bool) -> None:
    """sums, products, powers and exponents of a parameter apply the operation to its value"""
    fns: tp.Dict[str, tp.Tuple[tp.Callable[[tp.Any], tp.Any], tp.Callable[[tp.Any], tp.Any]]] = {
        "add": (lambda p: p + 1.5, lambda x: x + 1.5),
        "radd": (lambda p: 2 + p, lambda x: x + 2),
        "sub": (lambda p: p - 0.5, lambda x: x - 0.5),
        "mul": (lambda p: p * 3, lambda x: 3 * x),
        "rmul": (lambda p: 0.5 * p, lambda x: 0.5 * x),
        "div": (lambda p: p / 4.0, lambda x: x / 4),
        "neg": (lambda p: -p, lambda x: -x),
        "mulneg": (lambda p: p * -2.0, lambda x: -2 * x),
        "exp": (lambda p: 2.0**p, lambda x: 2.0**x),
        "exphalf": (lambda p: 0.5**p, lambda x: 0.5**x),
        "cube": (lambda p: p**3, lambda x: x**3),
        "rdiv": (lambda p: 1.0 / p, lambda x: 1.0 / x),
    }
    base = ng.p.Array(init=[1.0, 2.5])
    if bounded:
        base.set_bounds([0.5, 1.0], [2.0, 5.0])
    p = base
    for op in ops:
        p = fns[op][0](p)
    ref = base.spawn_child()

    def expected(x: np.ndarray) -> np.ndarray:
        for op in ops:
            x = fns[op][1](x)
        return x

    if integer:
        p = ng.ops.Int()(p) if hasattr(ng.ops, "Int") else p.set_integer_casting()
    p.random_state = np.random.RandomState(3)
    check(np.allclose(base.value, [1.0, 2.5]), "the parameter itself was modified", key="original")
    ends = [expected(np.array(b)) for b in ([0.5, 1.0], [2.0, 5.0])]
    low, up = np.minimum(*ends), np.maximum(*ends)
    for x in [-3.0, -1.0, -0.2, 0.0, 0.1, 0.4, 1.0, 2.0]:
        data = np.array([x, -x])
        b = ref.spawn_child().set_standardized_data(data, reference=base)
        want = expected(b.value)
        if np.isnan(want).any() or np.isinf(want).any() or (np.abs(want) > 1e6).any():
            continue
        c = p.spawn_child().set_standardized_data(data, reference=p)
        v = c.value
        ch.state("coordinate", x)
        if not integer:
            check(np.allclose(v, want), f"{ops} of {b.value} is {v} instead of {want}", key="value")
            if (b.value > 0).all() and (not {"cube", "exp", "exphalf", "rdiv"} & set(ops) or len(ops) == 1):
                d = p.spawn_child(new_value=want)
                check(np.allclose(d.value, want), f"{want} set as {d.value}", key="set")
                check(np.allclose(d.get_standardized_data(reference=p), c.get_standardized_data(reference=p)), "other coordinates", key="coordinates")
        else:
            check(v.dtype.kind == "i", f"{v} is not an integer", key="type")
            check((np.abs(v - want) <= 0.5 + 1e-6).all() or bounded, f"{ops} of {b.value} is {v} instead of {want} rounded", key="rounded")
            if bounded:
                for k in range(2):
                    room = np.floor(up[k] + 1e-9) - np.ceil(low[k] - 1e-9) >= 0  # there is an integer within the bounds
                    check(not room or low[k] - 1e-6 <= v[k] <= up[k] + 1e-6, f"{ops}: {v[k]} out of [{low[k]}, {up[k]}]", key="int-bounds")
                    near = np.round(want[k])
                    ok = low[k] <= near <= up[k]
                    check(not room or not ok or abs(v[k] - want[k]) <= 0.5 + 1e-6, f"{ops} of {b.value} is {v} instead of {want} rounded", key="rounded")


def invalid(ch: Chooser, method: str, lower: tp.Any, upper: tp.Any) -> None:
    """inconsistent bounds are refused"""
    for fn in (
        lambda: ng.p.Scalar(init=1.0).set_bounds(lower, upper, method=method),
        lambda: ng.p.Array(init=[1.0, 1.0]).set_bounds(lower, upper, method=method),
    ):
        ch.state("invalid", lower, upper)
        try:
            fn()
        except (ValueError, RuntimeError, TypeError):
            continue
        check(False, f"bounds [{lower}, {upper}] are accepted with value 1 ({method})", key="accepted")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    one_sided = [(0.0, None), (None, 2.0), (-7.5, None), (None, -1)]
    methods = ["bouncing", "clipping", "arctan", "tanh", "gaussian"]
    tr = [{"method": m, "lower": a, "upper": b} for m in methods + ["cauchy"] for a, b in BOUNDS + VECTORS]
    tr += [{"method": m, "lower": a, "upper": b} for m in ("bouncing", "clipping") for a, b in one_sided + [([1.0, -1.0], None)]]
    lay = []
    for kind in ("scalar", "array", "matrix"):
        for m in methods + ["constraint"]:
            bounds = BOUNDS + (VECTORS[:3] if kind != "scalar" else [])
            if m in ("bouncing", "clipping", "constraint"):
                bounds = bounds + one_sided
            for a, b in bounds:
                for sigma in (None, 0.3) if not thorough else (None, 0.01, 0.3, 20.0):
                    lay.append({"kind": kind, "method": m, "lower": a, "upper": b, "sigma": sigma, "exponent": None})
            if m in ("bouncing", "clipping"):
                for a, b in [(0.25, 8.0), (1e-3, 1.0), (0.5, 100.0)]:
                    for exponent in (2.0, 10.0) if not thorough else (1.1, 2.0, 3.0, 10.0):
                        lay.append({"kind": kind, "method": m, "lower": a, "upper": b, "sigma": None, "exponent": exponent})
    size = 9 if thorough else 6
    ints = [
        {"kind": kind, "lower": lo, "upper": lo + k, "method": m, "sigma": s}
        for kind in ("scalar", "array")
        for lo in (-4, -1, 0, 1, 7)
        for k in range(1, size)
        for m in [None] + methods
        for s in ((None, 1.0) if thorough else (None,))
    ]
    sam = [
        {"kind": kind, "method": m, "lower": a, "upper": b, "integer": i}
        for kind in ("scalar", "array")
        for m in methods + ["constraint"]
        for a, b in [(-1.0, 3.0), (0, 4), (-5.0, -2.0)] + ([([0.0, -2.0], [1.0, 5.0])] if kind == "array" else [])
        for i in (False, True)
        if not (i and a == -5.0)
    ]
    names = ["add", "radd", "sub", "mul", "rmul", "div", "neg", "mulneg", "exp", "exphalf", "cube", "rdiv"]
    ops = [
        {"ops": o, "bounded": b, "integer": i}
        for n in (1, 2, 3)
        for k, o in enumerate(itertools.product(names, repeat=n))
        for b in (False, True)
        for i in (False, True)
        if n < 3 or thorough or k % 29 == 0
    ]
    inv = [
        {"method": m, "lower": a, "upper": b}
        for m in methods + ["constraint"]
        for a, b in [(2.0, 0.0), (1.0, 1.0), (2.0, 3.0), (-3.0, 0.0), (None, None)]
        if not (m == "constraint" and a is None)
        if not (m == "constraint" and (a, b) in [(2.0, 3.0), (-3.0, 0.0)])
    ]
    return {
        "transform": Scenario(transform, tr),
        "layered": Scenario(layered, lay),
        "integers": Scenario(integers, ints),
        "sampled": Scenario(sampled, sam),
        "operations": Scenario(operations, ops),
        "invalid": Scenario(invalid, inv),
    }
