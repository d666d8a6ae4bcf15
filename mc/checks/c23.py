"""C23: arguments are mapped faithfully from containers to the objective."""
import itertools
import typing as tp
from concurrent import futures

import numpy as np
import nevergrad as ng
from nevergrad.parametrization import helpers
from mc import params
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution builds one structure (the explorer chooses the kind and number of children of each node, up to a depth and width), then reads and sets it as a whole, "
    "leaf by leaf and by coordinates, comparing with an independent description of the structure; orders of declaration and of assignment, pairs of values (for the hash) and "
    "ways to call the objective are enumerated as well. A state is a structure with the values of its leaves."
)
ASSUMPTIONS = ["same parameter repeated at different depths is not refused (documented as not tested by the library)"]


# description of structures: ("tuple", [nodes]), ("dict", [(key, node)]), ("inst", [nodes], [(key, node)]), ("leaf", kind), ("const", object)
Node = tp.Any
LEAF: tp.Dict[str, tp.Tuple[tp.Callable[[], tp.Any], int, tp.Callable[[int], tp.Any]]] = {  # builder, dimension, values
    "scalar": (lambda: ng.p.Scalar(init=0.5), 1, lambda i: 0.5 + i),
    "array": (lambda: ng.p.Array(init=[0.25, -1.0]), 2, lambda i: np.array([0.25 + i, -1.0 - i])),
    "choice": (lambda: ng.p.Choice(["a", "b", "c"], deterministic=True), 3, lambda i: "abc"[i % 3]),
    "int": (lambda: ng.p.Scalar(init=3).set_integer_casting(), 1, lambda i: 3 + i),
    "log": (lambda: ng.p.Log(init=2.0), 1, lambda i: 2.0 * (i + 1)),
}
CONST = ("const", "cst")


def leaves(node: Node, path: tp.Tuple[tp.Any, ...] = ()) -> tp.List[tp.Tuple[tp.Tuple[tp.Any, ...], str]]:
    """path and kind of each leaf in the order of the coordinates"""
    kind = node[0]
    if kind == "leaf":
        return [(path, node[1])]
    if kind == "tuple":
        return [x for k, n in enumerate(node[1]) for x in leaves(n, path + (k,))]
    if kind == "dict":
        return [x for k, n in sorted(node[1]) for x in leaves(n, path + (k,))]
    if kind == "inst":
        return leaves(("tuple", node[1]), path + (0,)) + leaves(("dict", node[2]), path + (1,))
    return []


def build(node: Node) -> tp.Any:
    kind = node[0]
    if kind == "leaf":
        return LEAF[node[1]][0]()
    if kind == "tuple":
        return ng.p.Tuple(*[build(n) for n in node[1]])
    if kind == "dict":
        return ng.p.Dict(**{k: build(n) for k, n in node[1]})
    if kind == "inst":
        return ng.p.Instrumentation(*[build(n) for n in node[1]], **{k: build(n) for k, n in node[2]})
    return node[1]


def value(node: Node, vals: tp.Iterator[tp.Any]) -> tp.Any:
    """value of a structure given the values of its leaves, in order"""
    kind = node[0]
    if kind == "leaf":
        return next(vals)
    if kind == "tuple":
        return tuple([value(n, vals) for n in node[1]])
    if kind == "dict":
        return {k: value(n, vals) for k, n in sorted(node[1])}
    if kind == "inst":
        args = value(("tuple", node[1]), vals)
        return (args, value(("dict", node[2]), vals))
    return node[1]


def wrong(node: Node, val: tp.Any) -> tp.Iterator[tp.Any]:
    """values with another structure"""
    kind = node[0]
    if kind == "tuple":
        yield val + (1.0,)
        yield list(val)
        yield {k: v for k, v in enumerate(val)}
        if val:
            yield val[:-1]
        for k, n in enumerate(node[1]):
            for w in wrong(n, val[k]):
                yield val[:k] + (w,) + val[k + 1 :]
    elif kind == "dict":
        yield dict(val, other=1.0)
        yield tuple(val.values())
        yield list(val.items())
        for k, n in node[1]:
            yield {x: y for x, y in val.items() if x != k}
            yield {(x if x != k else x + "_"): y for x, y in val.items()}
            for w in wrong(n, val[k]):
                yield dict(val, **{k: w})
    elif kind == "inst":
        yield val[0]
        yield val[1]
        yield val + ({},)
        yield (val[1], val[0])
        for w in wrong(("tuple", node[1]), val[0]):
            yield (w, val[1])
        for w in wrong(("dict", node[2]), val[1]):
            yield (val[0], w)
    elif kind == "const":
        yield "other"


def follow(param: tp.Any, path: tp.Sequence[tp.Any]) -> tp.Any:
    for k in path:
        param = param[k]
    return param


def exact(a: tp.Any, b: tp.Any) -> bool:
    return params.same_value(a, b, tol=1e-9)


def name_of(path: tp.Sequence[tp.Any], node: Node) -> str:
    """name of a leaf: keys separated by dots, without the two internal containers of instrumentations"""
    out = []
    todo = list(path)
    while todo:
        if node[0] == "inst":
            first = todo.pop(0)
            key = todo.pop(0)
            node = node[1][key] if first == 0 else dict(node[2])[key]
        else:
            key = todo.pop(0)
            node = node[1][key] if node[0] == "tuple" else dict(node[1])[key]
        out.append(str(key))
    return ".".join(out)


def spec(ch: Chooser, depth: int, width: int, kinds: tp.List[tp.List[str]], top: tp.Optional[str] = None) -> Node:
    level = kinds[0]
    options: tp.List[str] = [] if top else list(level) + ["const"] * (len(level) > 1)
    if depth > 0:
        options += ["tuple", "dict", "inst"]
    kind = top if top else ch.choose(options, "node")
    if kind == "const":
        return CONST
    if kind not in ("tuple", "dict", "inst"):
        return ("leaf", kind)
    number = ch.choose(list(range(width, -1, -1)), "children")
    children = [spec(ch, depth - 1, width, kinds[1:] or kinds) for _ in range(number)]
    keys = ["zz", "b", "k10", "k9"]  # declared in an order which is not sorted
    if kind == "tuple":
        return ("tuple", children)
    if kind == "dict":
        return ("dict", list(zip(keys, children)))
    split = ch.choose(list(range(number + 1)), "positional")
    return ("inst", children[:split], list(zip(keys, children[split:])))


def verify(param: tp.Any, node: Node, vals: tp.List[tp.Any], where: str) -> None:
    expected = value(node, iter(vals))
    got = param.value
    check(exact(expected, got), f"value {got} instead of {expected} ({where})", key=f"value {where}")
    if isinstance(param, ng.p.Instrumentation):
        check(exact((param.args, param.kwargs), expected), f"args {param.args}, kwargs {param.kwargs} for {expected}", key=f"args {where}")
    else:
        check(len(param.args) == 1 and exact(param.args[0], expected) and param.kwargs == {}, f"args {param.args} {param.kwargs}", key=f"args {where}")
    for (path, _), v in zip(leaves(node), vals):
        check(exact(follow(param, path).value, v), f"leaf {path} is {follow(param, path).value} instead of {v} ({where})", key=f"leaf {where}")


def structure(ch: Chooser, top: str, depth: int, width: int, kinds: tp.List[tp.List[str]]) -> None:
    node = spec(ch, depth, width, kinds, top=top)
    ch.state(node)
    param = build(node)
    param.random_state = np.random.RandomState(3)
    positions = leaves(node)
    if not positions:
        check(param.dimension == 0, f"dimension {param.dimension} without any variable", key="dimension")
        verify(param, node, [], "constant")
        return
    initial = [follow(param, p).value for p, _ in positions]
    for (_, k), v in zip(positions, initial):
        check(k == "choice" or exact(LEAF[k][2](0), v), f"initial value {v} for {k}", key="initial")
    verify(param, node, initial, "initial")
    # names and order
    flat = [(n, x) for n, x in helpers.flatten(param, with_containers=False)]
    flat = [(n, x) for n, x in flat if not n.endswith("indices")]  # internal part of choices
    check([n for n, _ in flat] == [name_of(p, node) for p, _ in positions], f"names {[n for n, _ in flat]} for {node}", key="names")
    check(all(x is follow(param, p) for (_, x), (p, _) in zip(flat, positions)), f"flatten does not give the leaves of {node}", key="flatten")
    # whole value
    new = [LEAF[k][2](i + 1) for i, (_, k) in enumerate(positions)]
    before = param.get_value_hash()
    whole = param.spawn_child()
    whole.value = value(node, iter(new))
    verify(whole, node, new, "whole")
    verify(param, node, initial, "parent")
    check(before == param.get_value_hash(), "the hash of the parent changed", key="hash")
    child = param.spawn_child(new_value=value(node, iter(new)))
    verify(child, node, new, "spawn")
    check(child.get_value_hash() == whole.get_value_hash(), "different hashes for equal values", key="hash equal")
    check(child.get_value_hash() != before or exact(child.value, param.value), "same hash for different values", key="hash different")
    # leaf by leaf
    single = param.spawn_child()
    done = list(initial)
    for i in list(range(len(positions)))[::-1]:
        follow(single, positions[i][0]).value = new[i]
        done[i] = new[i]
        verify(single, node, done, "leaf by leaf")
    check(single.get_value_hash() == whole.get_value_hash(), "different hashes for equal values", key="hash leaf by leaf")
    # coordinates
    dims = [LEAF[k][1] for _, k in positions]
    check(param.dimension == sum(dims), f"dimension {param.dimension} instead of {sum(dims)}", key="dimension")
    data = whole.get_standardized_data(reference=param)
    check(data.shape == (sum(dims),), f"shape {data.shape}", key="shape")
    start = 0
    for (path, kind), dim in zip(positions, dims):
        own = follow(whole, path).get_standardized_data(reference=follow(param, path))
        check(np.array_equal(own, data[start : start + dim]), f"coordinates of {path} in {node} are not at position {start}", key="coordinates")
        moved = np.zeros(sum(dims))
        moved[start] = 0.75
        other = param.spawn_child().set_standardized_data(moved, reference=param)
        for (p2, _), v in zip(positions, initial):
            same = exact(follow(other, p2).value, v)
            if p2 == path:
                check(kind == "choice" or not same or kind == "int", f"coordinate {start} does not move {path}", key="moved")
            else:
                check(same, f"coordinate {start} moves {p2} in {node}", key="other moved")
        start += dim
    for bad in wrong(node, value(node, iter(new))):
        try:
            param.spawn_child().value = bad
        except (ValueError, TypeError):
            continue
        check(False, f"{bad} was accepted for {node}", key="refused")


def build_in_order(kind: str, items: tp.List[tp.Tuple[str, tp.Any]], how: str) -> tp.Any:
    if how == "setitem":
        out: tp.Any = ng.p.Dict()
        for k, v in items:
            out[k] = v
        return out if kind == "dict" else ng.p.Tuple(out)
    if kind == "dict":
        return ng.p.Dict(**dict(items))
    if kind == "inst":
        return ng.p.Instrumentation("first", **dict(items))
    return ng.p.Tuple(ng.p.Dict(**dict(items)))


def inner(kind: str, param: tp.Any) -> tp.Any:
    return param if kind == "dict" else (param[1] if kind == "inst" else param[0])


def declaration(ch: Chooser, kind: str, kinds: tp.List[str], how: str) -> None:
    """the order of declaration of keywords is irrelevant"""
    keys = ["b", "a", "c10", "c9", "B"][: len(kinds)]
    base = list(zip(keys, kinds))
    todo = list(base)
    order = []
    while todo:
        order.append(todo.pop(ch.choose(list(range(len(todo))), "next key")))
    assign = list(base)
    assigned = []
    while assign:
        assigned.append(assign.pop(ch.choose(list(range(len(assign))), "next assigned")))
    one = build_in_order(kind, [(k, LEAF[x][0]()) for k, x in sorted(base)], "init")
    two = build_in_order(kind, [(k, LEAF[x][0]()) for k, x in order], how)
    for p in (one, two):
        p.random_state = np.random.RandomState(5)
    ch.state(kind, order, assigned, how)
    check(one.dimension == two.dimension, "dimensions differ", key="dimension")
    if kind != "inst" or how == "init":
        check(one.name == two.name, f"names {one.name} and {two.name}", key="name")
    d = one.dimension
    for data in [np.zeros(d), np.arange(1.0, d + 1), -0.3 * np.arange(1.0, d + 1)]:
        x = one.spawn_child().set_standardized_data(data, reference=one)
        y = two.spawn_child().set_standardized_data(data, reference=two)
        check(exact(x.value, y.value), f"{x.value} and {y.value} for the same coordinates", key="coordinates")
        check(x.get_value_hash() == y.get_value_hash(), "hashes differ", key="hash")
        check(
            np.array_equal(x.get_standardized_data(reference=one), y.get_standardized_data(reference=two)), "coordinates differ", key="read"
        )
    # assignments
    new = {k: LEAF[x][2](i + 1) for i, (k, x) in enumerate(base)}
    x = one.spawn_child()
    inner(kind, x).value = new
    y = two.spawn_child()
    for k, _ in assigned:
        inner(kind, y)[k].value = new[k]
    z = two.spawn_child()
    inner(kind, z).value = {k: new[k] for k, _ in assigned}
    for w in (y, z):
        check(exact(x.value, w.value), f"{w.value} instead of {x.value}", key="assignment")
        check(x.get_value_hash() == w.get_value_hash(), "hashes differ after assignment", key="assignment hash")
        check(
            np.array_equal(x.get_standardized_data(reference=one), w.get_standardized_data(reference=two)),
            "coordinates differ after assignment",
            key="assignment coordinates",
        )


def growth(ch: Chooser, kind: str) -> None:
    """elements added by item after some uses"""
    node = {"dict": lambda: ng.p.Dict(m=ng.p.Scalar()), "inst": lambda: ng.p.Instrumentation(ng.p.Scalar(), m=ng.p.Scalar())}
    param: tp.Any = node[kind]() if kind in node else ng.p.Tuple(ng.p.Scalar(), ng.p.Dict(m=ng.p.Scalar()))
    box = param if kind == "dict" else param[1]
    for _ in range(2):
        used = ch.choose(["none", "read", "value", "child", "hash"], "use")
        if used == "read":
            param.get_standardized_data(reference=param)
        elif used == "value":
            param.value  # pylint: disable=pointless-statement
        elif used == "child":
            param = param.spawn_child()
            box = param if kind == "dict" else param[1]
        elif used == "hash":
            param.get_value_hash()
        key = ch.choose(["a", "z", "m"], "added")
        box[key] = ng.p.Array(init=[1.0, 2.0]) if ch.choose([True, False], "array") else ng.p.Scalar(init=4.0)
        ch.state(kind, used, key, ch.trace)
        expected = sum(2 if isinstance(box[k].value, np.ndarray) else 1 for k in box) + (kind != "dict")
        check(param.dimension == expected, f"dimension {param.dimension} instead of {expected}", key="dimension")
        ref = param
        data = np.arange(1.0, expected + 1)
        new = ref.spawn_child().set_standardized_data(data, reference=ref)
        check(np.allclose(new.get_standardized_data(reference=ref), data), "coordinates are not read back", key="coordinates")
        start = int(kind != "dict")
        nbox = new if kind == "dict" else new[1]
        for k in sorted(box):
            size = 2 if isinstance(box[k].value, np.ndarray) else 1
            v = np.ravel(nbox[k].value) - np.ravel(box[k].value)
            check(np.allclose(v, data[start : start + size]), f"{k} moved by {v} instead of {data[start: start + size]}", key="order")
            start += size


def hashes(ch: Chooser, names: tp.List[str], kind: str) -> None:
    """equal hash if and only if equal values"""
    if kind == "leaf":
        param: tp.Any = params.build(names[0])
        vals = list(params.LEAVES[names[0]].values)
        own: tp.List[tp.Any] = vals
    else:
        param, _ = params.composite(kind, names)
        own = [params.composite_value(kind, v) for v in itertools.product(*[params.LEAVES[n].values[:3] for n in names])]
    items: tp.List[tp.Any] = []
    for v in own:
        items.append(param.spawn_child(new_value=v))
        second = param.spawn_child()
        second.value = v
        items.append(second)
        items.append(second.copy())
        items.append(second.spawn_child())
    d = param.dimension
    for c in (np.zeros(d), np.full(d, 0.5), np.arange(1.0, d + 1) / 3, np.full(d, 1e-9)):
        items.append(param.spawn_child().set_standardized_data(c, reference=param))
    items.append(param)
    a = ch.choose(list(range(len(items))), "first")
    ch.state(kind, names, a)
    x = items[a]
    hx, vx = x.get_value_hash(), x.value
    hash(hx)
    for y in items:
        same = params.same_value(vx, y.value, tol=0.0)
        if not same and params.same_value(vx, y.value):
            continue  # rounding
        check((hx == y.get_value_hash()) == same, f"values {vx} and {y.value}, hashes {hx} and {y.get_value_hash()}", key="hash")
    check(x.get_value_hash() == hx and params.same_value(vx, x.value), "the hash changed without modification", key="repeat")


def repeated(ch: Chooser) -> None:
    leaf = LEAF[ch.choose(list(LEAF), "leaf")][0]()
    where = ch.choose(["tuple", "dict", "inst", "args", "kwargs", "setitem"], "where")
    gap = ch.choose([0, 1], "between")
    extra = [ng.p.Scalar() for _ in range(gap)]
    names = {f"e{k}": x for k, x in enumerate(extra)}
    ch.state(where, gap)
    d = ng.p.Dict(first=leaf, **names)
    try:
        if where == "tuple":
            ng.p.Tuple(leaf, *extra, leaf)
        elif where == "dict":
            ng.p.Dict(a=leaf, **names, b=leaf)
        elif where == "inst":
            ng.p.Instrumentation(leaf, *extra, x=leaf)
        elif where == "args":
            ng.p.Instrumentation(leaf, *extra, leaf)
        elif where == "kwargs":
            ng.p.Instrumentation(a=leaf, **names, b=leaf)
        else:
            d["second"] = leaf
    except ValueError:
        return
    check(False, f"repeated parameter was accepted ({where})", key="repeated")


class Inline(futures.Executor):
    """runs the jobs at submission"""

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:  # type: ignore
        out: tp.Any = futures.Future()
        try:
            out.set_result(fn(*args, **kwargs))
        except Exception as e:  # pylint: disable=broad-except
            out.set_exception(e)
        return out


def call(ch: Chooser, optimizer: str) -> None:
    """the objective receives the arguments of the candidate"""
    top = ch.choose(["inst", "tuple", "dict", "scalar", "array", "choice", "int"], "kind")
    node = spec(ch, 1, 2, [["array"], ["scalar", "array"]], top=top) if top in ("inst", "tuple", "dict") else ("leaf", top)
    if not leaves(node):
        return
    workers = ch.choose([1, 2], "workers")
    how = ch.choose(["plain", "executor", "batch"], "executor")
    suggest = ch.choose([False, True], "suggest")
    param = build(node)
    param.random_state = np.random.RandomState(1)
    ch.state(node, workers, how, suggest)
    opt = ng.optimizers.registry[optimizer](param, budget=4, num_workers=workers)
    calls: tp.List[tp.Any] = []
    asked: tp.List[tp.Any] = []
    told: tp.List[tp.Any] = []

    def objective(*args: tp.Any, **kwargs: tp.Any) -> float:
        calls.append((args, kwargs))
        return float(len(calls))

    opt.register_callback("ask", lambda o, *a, **k: asked.append(o))
    opt.register_callback("tell", lambda o, c, v: told.append((c, v)))
    new = [LEAF[k][2](i + 1) for i, (_, k) in enumerate(leaves(node))]
    suggested = value(node, iter(new))
    if suggest:
        if top == "inst":
            opt.suggest(*suggested[0], **suggested[1])
        else:
            opt.suggest(suggested)
    executor = None if how == "plain" else Inline()
    rec = opt.minimize(objective, executor=executor, batch_mode=how == "batch")
    check(len(calls) == 4 and len(told) == 4, f"{len(calls)} calls and {len(told)} tells for a budget of 4", key="number")
    for cand, loss in told:
        args, kwargs = calls[int(loss) - 1]
        if top == "inst":
            check(exact((args, kwargs), cand.value), f"called with {args} {kwargs} for {cand.value}", key="arguments")
        else:
            check(len(args) == 1 and not kwargs and exact(args[0], cand.value), f"called with {args} {kwargs} for {cand.value}", key="arguments")
        vals = [follow(cand, p).value for p, _ in leaves(node)]
        verify(cand, node, vals, "candidate")
    check(sorted(v for _, v in told) == [1.0, 2.0, 3.0, 4.0], f"losses {told}", key="losses")
    if suggest:
        first = calls[0]
        check(exact(first if top == "inst" else first[0][0], suggested), f"first call with {first} but {suggested} was suggested", key="suggest")
    vals = [follow(rec, p).value for p, _ in leaves(node)]
    verify(rec, node, vals, "recommendation")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    out = {}
    small = [["scalar", "choice"], ["scalar", "array"]]
    tops = ["tuple", "dict", "inst"]
    cfgs: tp.List[tp.Dict[str, tp.Any]] = [dict(top=t, depth=1, width=3, kinds=[list(LEAF)]) for t in tops]
    cfgs += [dict(top=t, depth=2, width=2, kinds=[small[0], small[1] if thorough else ["scalar"]]) for t in tops]
    cfgs += [dict(top=t, depth=3 if not thorough else 4, width=1, kinds=small) for t in tops]
    if thorough:
        cfgs += [dict(top=t, depth=3, width=2, kinds=[["array"], ["scalar"], ["choice"], ["array"]]) for t in tops]
        cfgs += [dict(top=t, depth=1, width=4, kinds=[["scalar", "array", "choice"]]) for t in tops]
    out["structure"] = Scenario(structure, cfgs)
    dcl = [["scalar", "array", "choice"], ["int", "scalar", "log", "array"] if thorough else ["array", "scalar", "int"]]
    out["declaration"] = Scenario(
        declaration, [dict(kind=k, kinds=x, how=h) for k in ("dict", "inst", "nested") for x in dcl for h in ("init", "setitem") if (k, h) != ("inst", "setitem")]
    )
    out["growth"] = Scenario(growth, [dict(kind=k) for k in ("dict", "inst", "tuple")])
    hash_leaves = [n for n, x in params.LEAVES.items() if not x.stochastic]
    cfgs = [dict(names=[n], kind="leaf") for n in hash_leaves]
    core = [n for n in params.CORE if n in hash_leaves]
    for k in params.KINDS:
        cfgs += [dict(names=list(x), kind=k) for x in (itertools.product(core, repeat=2) if thorough else zip(core, core[3:] + core[:3]))]
    out["hashes"] = Scenario(hashes, cfgs)
    out["repeated"] = Scenario(repeated, [{}])
    opts = ["OnePlusOne", "RandomSearch", "DE"] if not thorough else ["OnePlusOne", "RandomSearch", "DE", "CMA", "PSO", "NGOpt", "TBPSA", "ScrHammersleySearch"]
    out["call"] = Scenario(call, [dict(optimizer=o) for o in opts])
    return out


