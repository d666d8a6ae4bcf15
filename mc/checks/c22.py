"""C22: choices select listed options, and sampling is repeatable per candidate."""
import itertools
import typing as tp

import numpy as np
from scipy import stats
import nevergrad as ng
from nevergrad.parametrization import discretization
from mc import params
from mc.engine import Chooser
from mc.lib import check, snap
from mc.main import Scenario
from mc.rng import Scripted

RULE = (
    "an execution uses one choice (kind, options, repetitions) through one resolution of the random draws, each draw being taken in a grid of "
    "the unit interval by the explorer; sequences of operations (read, set a value, set coordinates, mutate, spawn, sample) are explored up to the "
    "bound, as well as all the weights of a grid with infinite and undefined ones. A state is a (choice, operations, draws)."
)
ASSUMPTIONS = ["each draw of an option is decided by uniform numbers (proportions are measured on a regular grid of them)"]
DRAWS = [0.5, 0.0, 0.2, 0.8, 1 - 1e-12]


def scripted(ch: Chooser, grid: tp.Sequence[float] = DRAWS, bounded: bool = False) -> Scripted:
    count = [0]

    def source() -> float:
        count[0] += 1
        return ch.choose(list(grid), f"draw {count[0]}") if count[0] < 40 else grid[0]

    return Scripted(source)


def weights_of(row: tp.Sequence[float]) -> np.ndarray:
    """documented probabilities: softmax, infinite weights only if any, undefined and -infinite ignored except if all are"""
    w = np.array([-np.inf if x != x else x for x in row])
    if np.isposinf(w).any():
        p = np.isposinf(w).astype(float)
    elif np.isneginf(w).all():
        p = np.ones(len(w))
    else:
        p = np.exp(w - w.max())
    return p / p.sum()


def encoder(ch: Chooser, arity: int, rows: int) -> None:
    """options follow the weights"""
    alphabet = [0.0, 1.0, -2.0, 700.0, -800.0, float("inf"), -float("inf"), float("nan")]
    row = [ch.choose(alphabet, f"weight {k}") for k in range(arity)]
    others = [[0.3 * k - 0.1 * r for k in range(arity)] for r in range(1, rows)]
    position = ch.choose(list(range(rows)), "row") if rows > 1 else 0
    weights = np.array(others[:position] + [row] + others[position:])
    keep = weights.copy()
    number = 60
    ch.state(weights)
    counts = np.zeros((rows, arity))
    for k in range(number):
        enc = discretization.Encoder(weights, Scripted(lambda k=k: (k + 0.5) / number))
        probas = enc.probabilities()
        out = np.asarray(enc.encode())
        check(out.shape == (rows,), f"shape {out.shape}", key="shape")
        for r in range(rows):
            counts[r, int(out[r])] += 1
    check(np.array_equal(weights, keep, equal_nan=True), "the weights were modified", key="modified")
    for r in range(rows):
        expected = weights_of(list(weights[r]))
        check(np.allclose(probas[r], expected, atol=1e-9), f"probabilities {probas[r]} for weights {weights[r]}", key="probabilities")
        error = np.abs(counts[r] / number - expected).max()
        check(error <= 1.01 / number, f"proportions {counts[r] / number} instead of {expected} for weights {weights[r]}", key="proportions")
        check(not counts[r][expected == 0].any(), f"impossible option drawn with {weights[r]}", key="impossible")
        det = int(discretization.Encoder(weights, np.random.RandomState(0)).encode(deterministic=True)[r])
        check(expected[det] == expected.max() and det == int(np.argmax(expected)), f"deterministic option {det} for {weights[r]}", key="deterministic")
    # extreme draws
    for u in (0.0, 1e-300, 1 - 1e-16):
        out = discretization.Encoder(weights, Scripted(lambda: u)).encode()
        for r in range(rows):
            check(u == 0 or weights_of(list(weights[r]))[int(out[r])] > 0, f"impossible option {out[r]} for draw {u} with {weights[r]}", key="extreme")


OPTIONS: tp.Dict[str, tp.Callable[[], tp.List[tp.Any]]] = {
    "abc": lambda: ["a", "b", "c"],
    "two": lambda: [False, "x"],
    "mixed": lambda: [None, 3, "z", (1, 2), 2.5],
    "params": lambda: [ng.p.Scalar(lower=0.0, upper=1.0), "b", ng.p.Array(shape=(2,))],
    "nested": lambda: [ng.p.Choice(["u", "v"], deterministic=True), ng.p.Scalar(init=5.0, lower=4.0, upper=6.0), "w"],
    "containers": lambda: [ng.p.Tuple(ng.p.Scalar(), "k"), ng.p.Dict(a=ng.p.Scalar(), b=1), 7],
    "arrays": lambda: [1.0, np.array([1.0, 1.0]), np.array([2.0, 3.0]), np.array([[1.0], [1.0]])],
}
VALUES: tp.Dict[str, tp.List[tp.Tuple[int, tp.Any]]] = {  # values and the option which they select
    "abc": [(0, "a"), (1, "b"), (2, "c")],
    "two": [(0, False), (1, "x")],
    "mixed": [(0, None), (1, 3), (2, "z"), (3, (1, 2)), (4, 2.5)],
    "params": [(0, 0.25), (1, "b"), (2, np.array([1.0, -1.0])), (0, 1.0)],
    "nested": [(0, "v"), (1, 4.5), (2, "w"), (0, "u")],
    "containers": [(0, (3.0, "k")), (1, {"a": -1.0, "b": 1}), (2, 7)],
    "arrays": [(0, 1.0), (1, np.array([1.0, 1.0])), (2, np.array([2.0, 3.0])), (3, np.array([[1.0], [1.0]]))],
}
REFUSED: tp.Dict[str, tp.List[tp.Any]] = {
    "abc": ["d", 0, None],
    "two": ["y"],
    "mixed": ["a", 4, (1, 3)],
    "params": [1.5, "c", np.zeros(3), None],
    "nested": ["x", 7.0],
    "containers": [(3.0, "l"), {"a": 1.0}, {"a": 1.0, "b": 2}, 8],
    "arrays": [2.0, np.array([1.0]), np.array([1.0, 2.0])],
}


def make(kind: str, options: str, repetitions: tp.Optional[int]) -> tp.Any:
    opts = OPTIONS[options]()
    if kind == "transition":
        return ng.p.TransitionChoice(opts, repetitions=repetitions)
    if kind == "unordered":
        return ng.p.TransitionChoice(opts, repetitions=repetitions, ordered=False)
    return ng.p.Choice(opts, repetitions=repetitions, deterministic=kind == "deterministic")


def option_values(param: tp.Any) -> tp.List[tp.Any]:
    return [x.value if isinstance(x, ng.p.Parameter) else x for x in param.choices]


def consistent(param: tp.Any, repetitions: tp.Optional[int], what: str) -> tp.Any:
    """the value is made of the current values of the selected options"""
    value = param.value
    opts = option_values(param)
    inds = [int(i) for i in np.asarray(param.indices.value).ravel()]
    check(all(0 <= i < len(opts) for i in inds), f"{what}: indices {inds}", key="index")
    expected = opts[inds[0]] if repetitions is None else tuple(opts[i] for i in inds)
    check(len(inds) == (repetitions or 1), f"{what}: {len(inds)} indices", key="repetitions")
    check(snap(value) == snap(expected), f"{what}: value {value} instead of {expected} (indices {inds})", key="option")
    if repetitions is None:
        check(param.index == inds[0], f"{what}: index {param.index} instead of {inds[0]}", key="index")
    return value


def setting(ch: Chooser, kind: str, options: str, repetitions: tp.Optional[int]) -> None:
    """setting a value selects the matching option"""
    param = make(kind, options, repetitions)
    param.random_state = scripted(ch, [0.5, 0.95], True)
    picks = [ch.choose(VALUES[options], f"value {k}") for k in range(repetitions or 1)]
    value = picks[0][1] if repetitions is None else tuple(v for _, v in picks)
    before = [snap(v) for v in option_values(param)]
    if any(a == b and snap(v) != snap(w) for a, v in picks for b, w in picks):  # impossible
        try:
            child = param.spawn_child(new_value=value)
        except ValueError:
            return
        check(False, f"value {value} set as {child.value}", key="impossible")
    ch.state(ch.trace)
    child = param.spawn_child(new_value=value)
    if value is None:  # (no new value)
        child.value = None
    got = consistent(child, repetitions, f"value {value}")
    check(snap(got) == snap(value), f"value {value} set as {got}", key="set")
    inds = [int(i) for i in child.indices.value]
    check(inds == [k for k, _ in picks], f"value {value} selects {inds}", key="selected")
    after = [snap(v) for v in option_values(child)]
    if options != "containers":  # (an option which refuses a value may already have accepted a part of it)
        for k, (b, a) in enumerate(zip(before, after)):
            check(k in inds or a == b, f"setting {value} changes option {k}", key="others")
    check([snap(v) for v in option_values(param)] == before, "the parent was modified", key="parent")
    if kind != "choice":  # the coordinates decide
        back = param.spawn_child()
        back.set_standardized_data(child.get_standardized_data(reference=param), reference=param)
        check(params.same_value(back.value, value), f"value {value} comes back as {back.value}", key="back")
    for bad in REFUSED[options]:
        wrong = param.spawn_child()
        try:
            wrong.value = bad if repetitions is None else tuple([v for _, v in picks[:-1]] + [bad])
        except (ValueError, TypeError):
            continue
        check(False, f"{bad} is accepted as {wrong.value}", key="refused")


def sequences(ch: Chooser, kind: str, options: str, repetitions: tp.Optional[int], depth: int) -> None:
    """reading is repeatable, until a modification"""
    param = make(kind, options, repetitions)
    rng = scripted(ch, [0.5, 0.02, 0.93])
    param.random_state = rng
    current = param
    consistent(current, repetitions, "initial")
    values = VALUES[options]
    value: tp.Any
    for step in range(depth):
        op = ch.choose(["read", "data", "mutate", "spawn", "set", "sample", "copy", "recombine"], f"operation {step}")
        parent, before = current, snap(current.value)
        what = f"{op} at step {step}"
        if op == "data":
            dim = param.dimension
            current.set_standardized_data(np.array([0.9 * (-1) ** k * (1 + 0.1 * step) for k in range(dim)]), reference=param)
        elif op == "mutate":
            kept = {k: snap(v) for k, v in enumerate(option_values(current))}
            current.mutate()
            value = consistent(current, repetitions, what)
            chosen = {int(i) for i in current.indices.value}
            if kind in ("choice", "deterministic", "transition"):  # only the chosen option is mutated
                for k, v in enumerate(option_values(current)):
                    check(k in chosen or snap(v) == kept[k], f"{what}: option {k} which is not chosen was mutated", key="unchosen")
        elif op == "set":
            k, v = values[step % len(values)]
            current.value = v if repetitions is None else tuple(values[(step + i) % len(values)][1] for i in range(repetitions)) if options in ("abc", "two", "mixed") else tuple(v for _ in range(repetitions))
        elif op in ("spawn", "copy", "sample"):
            current = {"spawn": current.spawn_child, "copy": current.copy, "sample": current.sample}[op]()
        elif op == "recombine":
            current.recombine(param.spawn_child())
        value = snap(consistent(current, repetitions, what))
        ch.state(ch.trace, value)
        draws = rng.draws
        for _ in range(3):
            check(snap(consistent(current, repetitions, what)) == value, f"{what}: the value changes when it is read", key="stable")
            current.get_standardized_data(reference=param)
            current.satisfies_constraints()
        check(rng.draws == draws, f"{what}: reading the value again draws random numbers", key="draws")
        if op in ("spawn", "copy", "sample"):
            check(snap(parent.value) == before, f"{what}: value of the parent {before} becomes {parent.value}", key="parent")
            if op != "sample" and kind != "choice" and options != "params":
                check(value == before, f"{what}: {before} becomes {value}", key="inherited")


def independent(ch: Chooser, repetitions: int, arity: int) -> None:
    """each repetition follows its own weights with its own draw"""
    param = ng.p.Choice(list(range(arity)), repetitions=repetitions)
    data = np.array([[0.8 * ((r + k) % arity) for k in range(arity)] for r in range(repetitions)])
    number = 12
    grid = [(k + 0.5) / number for k in range(number)]
    position = ch.choose(list(range(repetitions)), "varied")
    rest = ch.choose([0.03, 0.5, 0.97], "others")
    counts = np.zeros(arity)
    ch.state(position, rest)
    fixed = None
    for u in grid:
        sequence = iter([u if r == position else rest for r in range(repetitions)])
        rng = Scripted(lambda: next(sequence, rest))
        param.random_state = rng
        child = param.spawn_child()
        child.set_standardized_data(data.ravel(), reference=param)
        value = child.value
        check(rng.draws == repetitions, f"{rng.draws} draws for {repetitions} repetitions", key="draws")
        others = tuple(v for r, v in enumerate(value) if r != position)
        check(fixed is None or others == fixed, f"the draw of repetition {position} changes the others: {others} and {fixed}", key="independent")
        fixed = others
        counts[value[position]] += 1
    expected = weights_of(list(data[position] * float(np.asarray(param.indices.sigma.value).ravel()[0])))
    check(np.abs(counts / number - expected).max() <= 1.01 / number, f"proportions {counts / number} instead of {expected}", key="proportions")


def transition(ch: Chooser, arity: int, repetitions: tp.Optional[int], ordered: bool) -> None:
    """a centered and reduced Gaussian coordinate gives a uniform choice, in the order of the options"""
    param = ng.p.TransitionChoice(list(range(arity)), repetitions=repetitions, ordered=ordered)
    rep = repetitions or 1
    position = ch.choose(list(range(rep)), "varied")
    number = 20 * arity
    counts = np.zeros(arity)
    previous = -1
    for k in range(number):
        data = np.full(rep, 0.3)
        data[position] = stats.norm.ppf((k + 0.5) / number)
        child = param.spawn_child().set_standardized_data(data, reference=param)
        value = child.value if repetitions is None else child.value[position]
        if repetitions is not None:
            others = {v for r, v in enumerate(child.value) if r != position}
            check(len(others) <= 1, f"repetitions {child.value} for {data}", key="repetitions")
        ch.state(position, k)
        check(value >= previous, f"{value} after {previous}", key="monotone")
        previous = value
        counts[value] += 1
    check(np.abs(counts - 20).max() <= 1, f"the options are not uniform: {counts}", key="uniform")
    for extreme in (-1e3, 1e3):
        child = param.spawn_child().set_standardized_data(np.full(rep, extreme), reference=param)
        value = child.value if repetitions is None else child.value[0]
        check(value == (0 if extreme < 0 else arity - 1), f"option {value} for {extreme}", key="extreme")


def moves(ch: Chooser, arity: int, transitions: tp.Tuple[float, ...], repetitions: tp.Optional[int]) -> None:
    """mutations of a transition choice: moves follow the transition weights, and stay within the options"""
    weights = ng.p.Array(init=np.array(transitions)).set_mutation(sigma=1e-9)
    param = ng.p.TransitionChoice(list(range(arity)), transitions=weights, repetitions=repetitions)
    rep = repetitions or 1
    start = [ch.choose(list(range(arity)), f"start {r}") for r in range(rep)]
    number = 30
    proportions = np.zeros(len(transitions))
    for sign in (0.25, 0.75):
        for k in range(number):
            rng = Scripted(lambda: 0.5)
            param.random_state = rng
            child = param.spawn_child(new_value=start[0] if repetitions is None else tuple(start))
            sequence = [0.5] * len(transitions) + [(k + 0.5) / number] * rep + [sign] * rep
            it = iter(sequence)
            rng.source = lambda: next(it, 0.5)
            child.mutate()
            ch.state(start, sign, k)
            value = [child.value] if repetitions is None else list(child.value)
            for s, v in zip(start, value):
                check(v in range(arity) and isinstance(v, int), f"value {v!r}", key="range")
                check(abs(v - s) < len(transitions), f"{s} moves to {v} with transitions {transitions}", key="step")
                direction = -1 if sign < 0.5 else 1
                check((v - s) * direction >= 0, f"{s} moves to {v} in the other direction", key="direction")
            move = abs(value[0] - start[0])
            room = start[0] if sign < 0.5 else arity - 1 - start[0]
            if room >= len(transitions) - 1:
                proportions[move] += 1
            else:
                proportions = proportions * np.nan
    if not np.isnan(proportions).any():
        expected = np.array(transitions) / sum(transitions)
        check(np.abs(proportions / proportions.sum() - expected).max() <= 1.01 / number, f"moves {proportions} with transitions {transitions}", key="proportions")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    enc = [{"arity": a, "rows": r} for a, r in [(1, 1), (2, 1), (3, 1), (2, 2), (2, 3)] + ([(4, 1), (3, 3)] if thorough else [])]
    kinds = ["choice", "deterministic", "transition", "unordered"]
    sets = [{"kind": k, "options": o, "repetitions": r} for k in kinds for o in OPTIONS for r in (None, 1, 2) + ((3,) if thorough else ())]
    seq = [
        {"kind": k, "options": o, "repetitions": r, "depth": 2}
        for k in kinds
        for o in ("abc", "params", "nested", "mixed", "containers")
        for r in (None, 2)
        if not (r and o == "containers")
    ]
    seq += [{"kind": k, "options": o, "repetitions": None, "depth": 3} for k in kinds for o in (("abc", "params", "nested") if thorough else ("abc",))]
    return {
        "encoder": Scenario(encoder, enc),
        "setting": Scenario(setting, sets, max_dev=None if thorough else 3),
        "sequences": Scenario(sequences, seq, max_dev=5 if thorough else 2),
        "independent": Scenario(independent, [{"repetitions": r, "arity": a} for r in (1, 2, 3) for a in (2, 3, 4)]),
        "transition": Scenario(transition, [{"arity": a, "repetitions": r, "ordered": o} for a in range(2, 9) for r in (None, 1, 3) for o in (True, False)]),
        "moves": Scenario(
            moves,
            [{"arity": a, "transitions": t, "repetitions": r} for a in (2, 3, 5) for t in [(1.0, 1.0), (2.0, 1.0, 1.0), (0.5, 1.5), (1.0, 0.0, 3.0)] for r in (None, 2)],
        ),
    }
