"""Catalogue of parametrizations: how to build them, which values they accept, which they refuse"""
import itertools
import typing as tp
import warnings

import numpy as np
import nevergrad as ng

warnings.simplefilter("ignore")
METHODS = ["bouncing", "clipping", "constraint", "arctan", "tanh", "gaussian"]
SURJECTIVE = ["arctan", "tanh", "gaussian"]  # reach the bounds at infinity only


class Leaf(tp.NamedTuple):
    build: tp.Callable[[], ng.p.Parameter]
    valid: tp.Callable[[tp.Any], bool]
    values: tp.List[tp.Any]  # accepted values
    refused: tp.List[tp.Any]  # refused values
    identity: bool = True  # any coordinates which are written are read back
    stochastic: bool = False  # the coordinates do not decide the value
    lossy: bool = False  # written values are read back exactly, but coordinates are within a bin
    positional: tp.Any = None  # for choices: index of a value


def number(lower: tp.Any = None, upper: tp.Any = None, integer: bool = False) -> tp.Callable[[tp.Any], bool]:
    def valid(x: tp.Any) -> bool:
        if isinstance(x, bool) or not isinstance(x, int if integer else float):
            return False
        return x == x and (lower is None or x >= lower - 1e-9) and (upper is None or x <= upper + 1e-9)

    return valid


def array(shape: tp.Tuple[int, ...], lower: tp.Any = None, upper: tp.Any = None, integer: bool = False) -> tp.Callable[[tp.Any], bool]:
    def valid(x: tp.Any) -> bool:
        if not isinstance(x, np.ndarray) or x.shape != shape or x.dtype.kind != ("i" if integer else "f"):
            return False
        if np.isnan(x).any():
            return False
        if lower is not None and (x < np.asarray(lower) - 1e-9).any():
            return False
        return not (upper is not None and (x > np.asarray(upper) + 1e-9).any())

    return valid


def one_of(options: tp.Sequence[tp.Any], repetitions: tp.Optional[int] = None) -> tp.Callable[[tp.Any], bool]:
    def is_option(x: tp.Any) -> bool:
        for o in options:
            if callable(o):
                if o(x):
                    return True
            elif type(o) is type(x) and o == x:  # pylint: disable=unidiomatic-typecheck
                return True
        return False

    def valid(x: tp.Any) -> bool:
        if repetitions is None:
            return is_option(x)
        return isinstance(x, tuple) and len(x) == repetitions and all(is_option(y) for y in x)

    return valid


NOT_NUMBERS: tp.List[tp.Any] = ["a", None, (1.0,), [1.0], np.array([1.0]), {}]
P = ng.p
LEAVES: tp.Dict[str, Leaf] = {}


def _scalars() -> None:
    num = number
    LEAVES["scalar"] = Leaf(P.Scalar, num(), [-3.5, 0.0, 1e6], NOT_NUMBERS)
    LEAVES["scalar-init"] = Leaf(lambda: P.Scalar(init=2.0), num(), [-3.5, 2.0, 1e6], NOT_NUMBERS)
    LEAVES["scalar-sigma"] = Leaf(lambda: P.Scalar(init=-1.0).set_mutation(sigma=0.25), num(), [-3.5, 0.0, 7.0], NOT_NUMBERS)
    LEAVES["scalar-fixed-sigma"] = Leaf(lambda: P.Scalar(mutable_sigma=False).set_mutation(sigma=3.0), num(), [-3.5, 0.0], [])
    LEAVES["scalar-log-sigma"] = Leaf(
        lambda: P.Scalar().set_mutation(sigma=P.Log(init=2.0, exponent=3.0)), num(), [-3.5, 0.0, 7.0], []
    )
    LEAVES["scalar-lower"] = Leaf(lambda: P.Scalar(lower=-1.0), num(-1), [-1.0, 0.0, 50.0], [-1.01, -1e9] + NOT_NUMBERS, False)
    LEAVES["scalar-upper"] = Leaf(lambda: P.Scalar(upper=3.0), num(None, 3), [-50.0, 0.0, 3.0], [3.01, 1e9], False)
    LEAVES["scalar-bounds"] = Leaf(lambda: P.Scalar(lower=-1.0, upper=3.0), num(-1, 3), [-1.0, 0.3, 3.0], [-1.01, 3.01, 1e9], False)
    LEAVES["scalar-bounds-init"] = Leaf(
        lambda: P.Scalar(init=0.0, lower=-1.0, upper=3.0), num(-1, 3), [-1.0, 0.3, 3.0], [-1.01, 3.01], False
    )
    for m in METHODS:
        ends = [] if m in SURJECTIVE else [-1.0, 2.0]
        LEAVES[f"scalar-{m}"] = Leaf(
            lambda m=m: P.Scalar(init=0.5).set_bounds(-1.0, 2.0, method=m),
            num() if m == "constraint" else num(-1, 2),
            [-0.9, 0.5, 1.75] + ends,
            [] if m == "constraint" else [-1.01, 2.5],
            m not in ("bouncing", "clipping"),
        )
    LEAVES["scalar-exp"] = Leaf(lambda: P.Scalar(init=1.0).set_mutation(exponent=2.0), num(0), [0.25, 1.0, 33.0], [])
    LEAVES["scalar-exp-bounds"] = Leaf(
        lambda: P.Scalar(init=1.0).set_mutation(exponent=2.0).set_bounds(0.25, 8.0), num(0.25, 8), [0.25, 1.0, 8.0], [0.2, 9.0], False
    )
    LEAVES["scalar-bounds-exp"] = Leaf(
        lambda: P.Scalar(init=1.0, lower=0.25, upper=8.0).set_mutation(exponent=2.0), num(0.25, 8), [0.25, 1.0, 8.0], [0.2, 9.0], False
    )
    LEAVES["scalar-int"] = Leaf(lambda: P.Scalar().set_integer_casting(), num(integer=True), [-3, 0, 12], ["a", None])
    LEAVES["scalar-int-bounds"] = Leaf(
        lambda: P.Scalar(lower=1, upper=4).set_integer_casting(), num(1, 4, True), [1, 2, 3, 4], [0, 5], False
    )
    LEAVES["scalar-int-lower"] = Leaf(lambda: P.Scalar(init=2, lower=1).set_integer_casting(), num(1, None, True), [1, 2, 9], [0, -4], False)
    LEAVES["scalar-int-gaussian"] = Leaf(
        lambda: P.Scalar(init=2).set_bounds(0, 5, method="gaussian").set_integer_casting(), num(0, 5, True), [0, 1, 4, 5], [-1, 6]
    )
    LEAVES["scalar-op"] = Leaf(lambda: 2.0 * P.Scalar(init=1.0) + 3.0, num(), [-3.5, 0.0, 12.0], NOT_NUMBERS)
    LEAVES["scalar-op-neg"] = Leaf(lambda: 1.0 - P.Scalar(init=1.0, lower=0.0, upper=2.0) / 2.0 if False else -(P.Scalar(init=1.0, lower=0.0, upper=2.0)), num(-2, 0), [-2.0, -0.5, 0.0], [0.5, -2.5], False)
    LEAVES["scalar-pow"] = Leaf(lambda: 10.0 ** P.Scalar(init=0.0, lower=-2.0, upper=1.0), num(0.01, 10), [0.01, 1.0, 10.0], [0.005, 11.0], False)
    LEAVES["scalar-cube"] = Leaf(lambda: P.Scalar(init=1.0, lower=0.0, upper=2.0) ** 3, num(0, 8), [0.0, 1.0, 8.0], [9.0], False)
    LEAVES["scalar-mod"] = Leaf(lambda: P.Scalar(init=0.25) % 1.0, num(0, 1), [0.0, 0.25, 0.99], [-0.1, 1.5])
    LEAVES["log"] = Leaf(lambda: P.Log(init=3.0), num(0), [0.001, 3.0, 500.0], [])
    LEAVES["log-bounds"] = Leaf(lambda: P.Log(lower=0.01, upper=100.0), num(0.01, 100), [0.01, 2.0, 100.0], [0.009, 101.0], False)
    LEAVES["log-bounds-init"] = Leaf(
        lambda: P.Log(init=0.5, lower=0.01, upper=100.0, exponent=3.0), num(0.01, 100), [0.01, 2.0, 100.0], [0.009, 101.0], False
    )
    LEAVES["log-lower"] = Leaf(lambda: P.Log(init=0.5, lower=0.1), num(0.1), [0.1, 2.0, 99.0], [0.05], False)
    LEAVES["log-int"] = Leaf(lambda: P.Log(lower=1, upper=64).set_integer_casting(), num(1, 64, True), [1, 2, 17, 64], [0, 65], False)


def _arrays() -> None:
    arr = array
    a = np.array
    bad: tp.List[tp.Any] = [1.0, "a", None, a([1.0]), a([1.0, 2.0, 3.0]), a([[1.0, 2.0]])]
    LEAVES["array"] = Leaf(lambda: P.Array(shape=(2,)), arr((2,)), [a([0.0, 0.0]), a([-5.0, 7.5])], bad)
    LEAVES["array-1"] = Leaf(lambda: P.Array(shape=(1,)), arr((1,)), [a([0.0]), a([-5.0])], [1.0, a(1.0)])
    LEAVES["array-2d"] = Leaf(
        lambda: P.Array(init=[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]), arr((2, 3)), [np.zeros((2, 3)), np.arange(6.0).reshape(2, 3)], [np.zeros((3, 2)), np.zeros(6)]
    )
    LEAVES["array-mutable"] = Leaf(lambda: P.Array(init=[1.0, 2.0], mutable_sigma=True), arr((2,)), [a([0.0, 0.0]), a([-5.0, 7.5])], bad)
    LEAVES["array-bounds"] = Leaf(
        lambda: P.Array(shape=(2,), lower=-1.0, upper=3.0), arr((2,), -1, 3), [a([-1.0, 3.0]), a([0.0, 2.5])], [a([-1.1, 0.0]), a([0.0, 3.1])], False
    )
    LEAVES["array-bounds-init"] = Leaf(
        lambda: P.Array(init=[0.0, 1.0], lower=[-1.0, 0.0], upper=[3.0, 10.0]),
        arr((2,), [-1, 0], [3, 10]),
        [a([-1.0, 10.0]), a([3.0, 0.0]), a([0.5, 5.0])],
        [a([-1.1, 0.0]), a([4.0, 5.0]), a([0.0, -0.1]), a([0.0, 10.1])],
        False,
    )
    LEAVES["array-lower"] = Leaf(lambda: P.Array(init=[1.0, 1.0], lower=0.0), arr((2,), 0), [a([0.0, 30.0])], [a([-0.1, 1.0])], False)
    LEAVES["array-upper"] = Leaf(lambda: P.Array(init=[1.0, 1.0], upper=[2.0, 4.0]), arr((2,), None, [2, 4]), [a([2.0, 4.0]), a([-30.0, 0.0])], [a([2.1, 0.0])], False)
    for m in METHODS:
        ends = [] if m in SURJECTIVE else [a([-1.0, 5.0])]
        LEAVES[f"array-{m}"] = Leaf(
            lambda m=m: P.Array(init=[0.5, 2.0]).set_bounds([-1.0, 0.0], [2.0, 5.0], method=m),
            arr((2,)) if m == "constraint" else arr((2,), [-1, 0], [2, 5]),
            [a([-0.9, 4.9]), a([0.5, 2.0])] + ends,
            [] if m == "constraint" else [a([-1.5, 2.0]), a([0.0, 5.5])],
            m not in ("bouncing", "clipping"),
        )
    LEAVES["array-int"] = Leaf(lambda: P.Array(shape=(2,)).set_integer_casting(), arr((2,), integer=True), [a([0, 0]), a([-5, 7])], [])
    LEAVES["array-int-bounds"] = Leaf(
        lambda: P.Array(init=[1.0, 5.0], lower=[0.0, 4.0], upper=[3.0, 9.0]).set_integer_casting(),
        arr((2,), [0, 4], [3, 9], True),
        [a([0, 9]), a([3, 4]), a([1, 6])],
        [a([-1, 5]), a([0, 10])],
        False,
    )
    LEAVES["array-exp"] = Leaf(lambda: P.Array(init=[1.0, 2.0]).set_mutation(exponent=3.0), arr((2,), 0), [a([0.1, 20.0])], [])
    LEAVES["array-op"] = Leaf(lambda: P.Array(init=[1.0, 2.0]) * a([2.0, -3.0]) + 1.0, arr((2,)), [a([0.0, 0.0]), a([-5.0, 7.5])], [])
    LEAVES["array-mod"] = Leaf(lambda: P.Array(init=[0.25, 0.5]) % 1.0, arr((2,), 0, 1), [a([0.0, 0.9]), a([0.25, 0.5])], [a([-0.5, 0.0]), a([0.0, 1.5])])
    LEAVES["angles"] = Leaf(
        lambda: P.Angles(init=[0.5, -1.0]), arr((2,), -np.pi, np.pi), [a([0.0, 3.0]), a([-3.0, 1.0])], [a([3.5, 0.0])], True
    )
    LEAVES["angles-deg"] = Leaf(lambda: P.Angles(shape=(2,), deg=True), arr((2,), -180, 180), [a([0.0, 170.0]), a([-90.0, 45.0])], [a([190.0, 0.0])], True)


def _choices() -> None:
    def index(options: tp.Sequence[tp.Any]) -> tp.Callable[[tp.Any], int]:
        return lambda x: list(options).index(x)

    abc = ["a", "b", "c"]
    bad: tp.List[tp.Any] = ["d", 0, None, ("a",)]
    LEAVES["choice"] = Leaf(lambda: P.Choice(abc), one_of(abc), abc, bad, stochastic=True, positional=index(abc))
    LEAVES["choice-int"] = Leaf(lambda: P.Choice(2), one_of([0, 1]), [0, 1], [2, "a"], stochastic=True, positional=index([0, 1]))
    LEAVES["choice-det"] = Leaf(lambda: P.Choice(abc, deterministic=True), one_of(abc), abc, bad, positional=index(abc))
    LEAVES["choice-rep"] = Leaf(
        lambda: P.Choice(abc, repetitions=2), one_of(abc, 2), [("a", "b"), ("c", "c")], ["a", ("a",), ("a", "d"), ("a", "b", "c")], stochastic=True
    )
    LEAVES["choice-rep-det"] = Leaf(
        lambda: P.Choice(abc, repetitions=3, deterministic=True), one_of(abc, 3), [("a", "b", "c"), ("c", "c", "a")], ["abd", ("a", "d", "a")]
    )
    LEAVES["choice-one"] = Leaf(lambda: P.Choice(["a"]), one_of(["a"]), ["a"], ["b"], positional=index(["a"]))
    LEAVES["choice-param"] = Leaf(
        lambda: P.Choice([P.Scalar(lower=0.0, upper=1.0), P.Array(shape=(2,)), "c"], deterministic=True),
        one_of([number(0, 1), array((2,)), "c"]),
        [0.5, np.array([2.0, -1.0]), "c"],
        ["d", 3.0, np.zeros(3)],
        False,
    )
    LEAVES["transition"] = Leaf(
        lambda: P.TransitionChoice(abc + ["d"]), one_of(abc + ["d"]), abc + ["d"], ["e", 0], False, lossy=True, positional=index(abc + ["d"])
    )
    LEAVES["transition-2"] = Leaf(lambda: P.TransitionChoice(2), one_of([0, 1]), [0, 1], [2, "a"], False, lossy=True, positional=index([0, 1]))
    LEAVES["transition-7"] = Leaf(lambda: P.TransitionChoice(7), one_of(list(range(7))), list(range(7)), [7, -1], False, lossy=True, positional=index(range(7)))
    LEAVES["transition-rep"] = Leaf(
        lambda: P.TransitionChoice(abc, repetitions=2), one_of(abc, 2), [("a", "b"), ("c", "c"), ("b", "a")], [("a",), ("a", "d")], False, lossy=True
    )
    LEAVES["transition-unordered"] = Leaf(
        lambda: P.TransitionChoice(abc, ordered=False), one_of(abc), abc, ["d"], False, lossy=True, positional=index(abc)
    )
    LEAVES["transition-param"] = Leaf(
        lambda: P.TransitionChoice([P.Scalar(lower=0.0, upper=1.0), "b", P.Scalar(lower=2.0, upper=3.0)]),
        one_of([number(0, 1), "b", number(2, 3)]),
        [0.25, "b", 3.0],
        [1.5, "d"],
        False,
        lossy=True,
    )
    LEAVES["constant"] = Leaf(lambda: P.Constant("x"), one_of(["x"]), ["x"], ["y", 12])


_scalars()
_arrays()
_choices()
CORE = [
    "scalar", "scalar-bounds", "scalar-arctan", "scalar-int-bounds", "scalar-exp-bounds", "scalar-op", "log-bounds", "array", "array-bounds-init",
    "array-mutable", "array-int-bounds", "angles", "choice", "choice-det", "choice-rep", "choice-param", "transition", "transition-unordered",
    "transition-rep", "constant",
]  # fmt: skip


def same_value(a: tp.Any, b: tp.Any, tol: float = 1e-6) -> bool:
    """equality of types and structures, up to rounding"""
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same_value(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(same_value(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)
    if isinstance(a, (float, int)) and not isinstance(a, bool) and isinstance(b, (float, int)):
        return abs(a - b) <= tol * (1 + abs(a))
    return type(a) is type(b) and a == b


def coordinates(dim: int, alphabet: tp.Sequence[float], full: int = 2) -> tp.Iterator[np.ndarray]:
    """all the vectors up to some dimension, vectors with one or two coordinates set beyond"""
    if dim <= full:
        for d in itertools.product(alphabet, repeat=dim):
            yield np.array(d)
        return
    for x in alphabet:
        yield np.full(dim, x)
    for i in range(dim):
        for x in alphabet:
            out = np.zeros(dim)
            out[i] = x
            yield out
    k = len(alphabet)
    for shift in range(k):
        yield np.array([alphabet[(shift + 2 * i) % k] for i in range(dim)])


def build(name: str, seed: int = 12) -> ng.p.Parameter:
    param = LEAVES[name].build()
    param.random_state = np.random.RandomState(seed)
    return param


def composite(kind: str, names: tp.Sequence[str]) -> tp.Tuple[ng.p.Parameter, tp.Callable[[ng.p.Parameter], tp.List[ng.p.Parameter]]]:
    """A composed parametrization, and the function giving its leaves"""
    leaves = [LEAVES[n].build() for n in names]
    keys = [f"k{len(leaves) - i}" for i in range(len(leaves))]  # declared in reverse order
    param: tp.Any
    if kind == "tuple":
        param = P.Tuple(*leaves)
        get = lambda p: [p[i] for i in range(len(names))]
    elif kind == "dict":
        param = P.Dict(**dict(zip(keys, leaves)))
        get = lambda p: [p[k] for k in keys]
    elif kind == "args":
        param = P.Instrumentation(leaves[0], **dict(zip(keys[1:], leaves[1:])))
        get = lambda p: [p[0][0]] + [p[1][k] for k in keys[1:]]
    elif kind == "kwargs":
        param = P.Instrumentation(**dict(zip(keys, leaves)))
        get = lambda p: [p[1][k] for k in keys]
    elif kind == "nested":
        param = P.Tuple(P.Dict(**{"z": leaves[0]}), P.Tuple(*leaves[1:]))
        get = lambda p: [p[0]["z"]] + [p[1][i] for i in range(len(names) - 1)]
    elif kind == "deep":
        param = P.Instrumentation(P.Dict(b=P.Tuple(leaves[0]), a=P.Dict(x=P.Tuple(*leaves[1:]))), 3, c=7)
        get = lambda p: [p[0][0]["b"][0]] + [p[0][0]["a"]["x"][i] for i in range(len(names) - 1)]
    else:
        raise ValueError(kind)
    param.random_state = np.random.RandomState(12)
    return param, get


def composite_value(kind: str, values: tp.Sequence[tp.Any]) -> tp.Any:
    """the value expected from a composition, given the values of its leaves"""
    keys = [f"k{len(values) - i}" for i in range(len(values))]
    v = list(values)
    if kind == "tuple":
        return tuple(v)
    if kind == "dict":
        return dict(zip(keys, v))
    if kind == "args":
        return ((v[0],), dict(zip(keys[1:], v[1:])))
    if kind == "kwargs":
        return ((), dict(zip(keys, v)))
    if kind == "nested":
        return ({"z": v[0]}, tuple(v[1:]))
    return (({"b": (v[0],), "a": {"x": tuple(v[1:])}}, 3), {"c": 7})


KINDS = ["tuple", "dict", "args", "kwargs", "nested", "deep"]
