"""C32: basic containers obey their abstract specification."""
import os
import typing as tp
from collections import OrderedDict

import numpy as np
from nevergrad.common import tools
from nevergrad.common.decorators import Registry
from nevergrad.optimization import utils
from mc.engine import Chooser, Violation
from mc.lib import Clock, check
from mc.main import Scenario

RULE = (
    "an execution is one sequence of operations on a real container (all sequences up to the depth, pruned on canonical states for the deepest ones), "
    "each operation being mirrored on an abstract model and all observations compared after each of them; helpers are compared with their definition on "
    "all small inputs. A state is the observable content of the container."
)
ASSUMPTIONS = [
    "arrays given as archive keys are not equal with different signs of zero",
    "environment variables are only changed in the process of the check",
]


def outcome(fn: tp.Callable[[], tp.Any]) -> tp.Tuple[str, tp.Any]:
    try:
        return ("value", fn())
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return ("error", type(e).__name__)


def ordered_set(ch: Chooser, depth: int, keys: str, prune: bool, start: str) -> None:
    real: tp.Any = tools.OrderedSet(start)
    model: tp.List[str] = []

    def madd(k: str) -> None:
        if k in model:
            model.remove(k)
        model.append(k)

    for k in start:
        madd(k)
    for step in range(depth):
        check(list(real) == model, f"order {list(real)} instead of {model}", key="order")
        check(len(real) == len(model) and bool(real) == bool(model), f"length {len(real)} instead of {len(model)}", key="length")
        check(all((k in real) == (k in model) for k in keys + "?"), f"membership differs from {model}", key="contains")
        check(list(reversed(list(real))) == model[::-1], "iteration")
        if prune:
            ch.visit(depth - step, list(real))
        else:
            ch.state(list(real))
        op = ch.choose(["add", "discard", "remove", "popright", "clear", "ior", "isub", "iand", "ixor", "compare"], "operation")
        if op in ("add", "discard", "remove"):
            k = ch.choose(list(keys), "key")
            got = outcome(lambda: getattr(real, op)(k))
            if op == "add":
                madd(k)
                check(got == ("value", None), f"add({k}): {got}", key="add")
            elif op == "discard":
                check(got == ("value", None), f"discard({k}) from {model}: {got}", key="discard")
                if k in model:
                    model.remove(k)
            else:
                check(got[0] == ("value" if k in model else "error"), f"remove({k}) from {model}: {got}", key="remove")
                if k in model:
                    model.remove(k)
        elif op == "popright":
            got = outcome(real.popright)
            if model:
                check(got == ("value", model.pop()), f"popright: {got}", key="popright")
            else:
                check(got[0] == "error", f"popright of an empty set: {got}", key="popright")
        elif op == "clear":
            real.clear()
            model.clear()
        elif op in ("ior", "isub", "iand", "ixor"):
            other = set(ch.choose(["", keys[:1], keys[1:], keys + "?"], "other"))
            got = outcome(lambda: getattr(real, f"__{op}__")(other))
            check(got[0] == "value" and got[1] is real, f"{op} {sorted(other)} on {model}: {got}", key=op)
            want = {"ior": set(model) | other, "isub": set(model) - other, "iand": set(model) & other, "ixor": set(model) ^ other}[op]
            check(set(real) == want, f"{op}: {sorted(real)} instead of {sorted(want)}", key=op)
            if op == "ior":
                check(list(real)[: len(model) - len(set(model) & other)] == [m for m in model if m not in other], f"{op}: wrong order {list(real)}", key=op)
            else:
                kept = [m for m in model if m in want]
                check([r for r in real if r in model] == kept, f"{op}: wrong order {list(real)}", key=op)
            model = list(real)
        else:
            other = set(ch.choose(["", keys[:1], keys], "other"))
            check((real == other) == (set(model) == other), "equality", key="compare")
            check((real <= other) == (set(model) <= other), "inclusion", key="compare")
            check(set(real & other) == set(model) & other and set(real | other) == set(model) | other, "union", key="compare")
            check(set(real - other) == set(model) - other and set(real ^ other) == set(model) ^ other, "difference", key="compare")
            check(real.isdisjoint(other) == set(model).isdisjoint(other), "disjoint", key="compare")
    check(list(real) == model, f"order {list(real)} instead of {model}", key="order")


def uid_queue(ch: Chooser, depth: int, uids: str, prune: bool) -> None:
    """told first (oldest first), then rotation of the asked ones"""
    real = utils.UidQueue()
    told: tp.List[str] = []
    asked: tp.List[str] = []
    for step in range(depth):
        check(list(real.told) == told, f"told {list(real.told)} instead of {told}", key="told")
        check(list(real.asked) == asked, f"asked {list(real.asked)} instead of {asked}", key="asked")
        if prune:
            ch.visit(depth - step, told, asked)
        else:
            ch.state(told, asked)
        op = ch.choose(["tell", "ask", "discard", "clear"], "operation")
        if op == "tell":
            uid = ch.choose(list(uids), "uid")
            real.tell(uid)
            told.append(uid)
            if uid in asked:
                asked.remove(uid)
        elif op == "ask":
            got = outcome(real.ask)
            if not told and not asked:
                check(got == ("error", "RuntimeError"), f"ask of an empty queue: {got}", key="ask")
                continue
            want = told.pop(0) if told else asked[0]
            check(got == ("value", want), f"ask gives {got} instead of {want}", key="ask")
            if want in asked:
                asked.remove(want)
            asked.append(want)
        elif op == "discard":
            known = sorted(set(told) | set(asked))
            if not known:
                continue
            uid = ch.choose(known, "uid")
            real.discard(uid)
            asked = [a for a in asked if a != uid]
            told = [t for t in told if t != uid]
        else:
            real.clear()
            told, asked = [], []


def archive(ch: Chooser, depth: int) -> None:
    vectors = [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (1.0,)]
    forms: tp.Dict[str, tp.Callable[[tp.Any], tp.Any]] = {
        "array": lambda v: np.array(v),
        "list": list,
        "tuple": tuple,
        "strided": lambda v: np.repeat(np.array(v), 2)[::2],
        "reversed": lambda v: np.array(v[::-1])[::-1],
    }
    real: utils.Archive[tp.Any] = utils.Archive()
    model: "OrderedDict[tp.Any, int]" = OrderedDict()
    for step in range(depth):
        ch.state(list(model.items()))
        op = ch.choose(["set", "get", "bad"], "operation")
        if op == "bad":
            bad = ch.choose([np.zeros((1, 2)), np.zeros(2, dtype=int), np.zeros(2, dtype=np.float32), np.float64(3)], "key")
            for fn in (lambda: real[bad], lambda: bad in real, lambda: real.get(bad)):
                check(outcome(fn)[0] == "error", f"the key {bad!r} is accepted", key="bad")
            continue
        v = ch.choose(vectors, "vector")
        form = ch.choose(list(forms), "form")
        x = forms[form](v)
        if op == "set":
            real[x] = step
            model[v] = step
            if isinstance(x, np.ndarray):
                x[:] = 12  # modifying the key afterwards must not change the archive
        else:
            check((x in real) == (v in model), f"{v} in {list(model)}", key="contains")
            check(real.get(x) == model.get(v) and real.get(x, "no") == model.get(v, "no"), f"get {v}", key="get")
            got = outcome(lambda: real[x])
            check(got == (("value", model[v]) if v in model else ("error", "KeyError")), f"[{v}]: {got}", key="getitem")
        check(len(real) == len(model), "length", key="length")
        check(list(real.values()) == list(model.values()), f"values {list(real.values())}", key="values")
        check([tuple(k) for k in real.keys_as_arrays()] == list(model), "keys", key="keys")
        check([(tuple(k), w) for k, w in real.items_as_arrays()] == list(model.items()), "items", key="items")


def registry(ch: Chooser, depth: int, prune: bool) -> None:
    real: Registry[tp.Any] = Registry()
    model: tp.Dict[str, tp.Any] = {}
    infos: tp.Dict[str, tp.Any] = {}

    def f() -> None:
        pass

    class g:
        pass

    objs = {"f": f, "g": g, "str": "a string"}
    for step in range(depth):
        canon = sorted(model), sorted((k, sorted(v.items())) for k, v in infos.items())
        if prune:
            ch.visit(depth - step, canon)
        else:
            ch.state(canon)
        op = ch.choose(["register", "with_info", "name", "unregister", "del", "set", "info"], "operation")
        name = ch.choose(list(objs), "object")
        obj = objs[name]
        if op in ("register", "with_info", "name"):
            info: tp.Any = dict(tag=step) if op != "register" else None
            if op == "register":
                got = outcome(lambda: real.register(obj))
            elif op == "with_info":
                got = outcome(lambda: real.register_with_info(**info)(obj))
            else:
                got = outcome(lambda: real.register_name(name, obj, dict(info)))
            if name in model:
                check(got == ("error", "RuntimeError"), f"{op}: {name} is registered twice", key="collision")
            else:
                check(got == ("value", obj if op != "name" else None), f"{op} {name}: {got}", key=op)
                model[name] = obj
                if info is not None:
                    infos[name] = info
        elif op == "unregister":
            check(outcome(lambda: real.unregister(name)) == ("value", None), "unregister", key=op)
            model.pop(name, None)
            infos.pop(name, None)
        elif op == "del":
            got = outcome(lambda: real.__delitem__(name))
            check(got == (("value", None) if name in model else ("error", "KeyError")), f"del {name}: {got}", key=op)
            model.pop(name, None)
            infos.pop(name, None)
        elif op == "set":
            real[name] = obj
            model[name] = obj
        else:
            got = outcome(lambda: real.get_info(name))
            want = ("value", infos.get(name, {})) if name in model else ("error", "ValueError")
            check(got == want, f"information on {name}: {got} instead of {want}", key=op)
        check(list(real) == list(model) and len(real) == len(model), f"names {list(real)} instead of {list(model)}", key="names")
        for k in objs:
            check((k in real) == (k in model), f"membership of {k}", key="contains")
            check(outcome(lambda: real[k]) == (("value", model[k]) if k in model else ("error", "KeyError")), f"[{k}]", key="getitem")
    for k in model:
        check(real.get_info(k) == infos.get(k, {}), f"information on {k}: {real.get_info(k)} instead of {infos.get(k, {})}", key="info")


def helpers(ch: Chooser, size: int) -> None:
    n = ch.choose(size + 1, "length")
    items = list(range(n))
    asiter = ch.choose([False, True], "as an iterator")

    def src(x: tp.Any) -> tp.Any:
        return iter(x) if asiter else x

    check(list(tools.pairwise(src(items))) == [(items[k], items[k + 1]) for k in range(n - 1)], f"pairwise of {n}", key="pairwise")
    for k in range(1, size + 1):
        want = [tuple(items[j : j + k] + ["x"] * (k - len(items[j : j + k]))) for j in range(0, n, k)]
        check([tuple(t) for t in tools.grouper(src(items), k, "x")] == want, f"grouper of {n} by {k}", key="grouper")
    ch.state(n, asiter)


def roundrobin(ch: Chooser, number: int, size: int) -> None:
    lengths = [ch.choose(size + 1, "length") for _ in range(number)]
    lists = [[(k, j) for j in range(n)] for k, n in enumerate(lengths)]
    want = [lists[k][j] for j in range(size) for k in range(number) if j < lengths[k]]
    got = list(tools.roundrobin(*[iter(x) for x in lists]))
    check(got == want, f"roundrobin of lengths {lengths}: {got}", key="roundrobin")
    check(list(tools.roundrobin(*lists)) == want, f"roundrobin of lengths {lengths}", key="roundrobin")
    ch.state(lengths)


def environment(ch: Chooser) -> None:
    names = ["MC_VAR_A", "MC_VAR_B"]
    for k in names:
        os.environ.pop(k, None)
        if ch.flag(f"{k} is defined"):
            os.environ[k] = "old"
    before = dict(os.environ)
    which = ch.choose([[], names[:1], names, ["MC_VAR_A", "mc_lower"]], "set")
    what = ch.choose(["nothing", "change", "delete", "raise", "nested"], "in the context")
    got = "none"
    try:
        with tools.set_env(**{k: 12 for k in which}):
            check(all(os.environ[k] == "12" for k in which), "variables are not set", key="set")
            check(all(os.environ.get(k) == before.get(k) for k in before if k not in which), "other variables are changed", key="set")
            if what == "change":
                for k in which:
                    os.environ[k] = "other"
            elif what == "delete":
                for k in which:
                    del os.environ[k]
            elif what == "raise":
                raise KeyError("mine")
            elif what == "nested":
                with tools.set_env(MC_VAR_B="nested"):
                    check(os.environ["MC_VAR_B"] == "nested", "nested", key="set")
                check(os.environ.get("MC_VAR_B") == ("12" if "MC_VAR_B" in which else before.get("MC_VAR_B")), "nested environment is not restored", key="restore")
    except ValueError:
        got = "ValueError"
    except KeyError as e:
        check(e.args == ("mine",), f"unexpected error {e!r} ({what})", key="restore")
        got = "KeyError"
    check((got == "ValueError") == ("mc_lower" in which), f"lower case names: {got}", key="lower")
    check(dict(os.environ) == before, f"the environment is not restored ({what})", key="restore")
    ch.state(which, what, got)


def flatten(ch: Chooser, depth: int, width: int) -> None:
    def build(level: int) -> tp.Any:
        kind = ch.choose(["leaf", "list", "tuple", "dict"] if level else ["leaf"], "kind")
        if kind == "leaf":
            return ch.choose([1, "s"], "leaf")
        n = ch.choose(range(1, width + 1), "width")
        kids = [build(level - 1) for _ in range(n)]
        return {"list": list, "tuple": tuple, "dict": lambda x: {f"k{j}": v for j, v in enumerate(x)}}[kind](kids)

    def leaves(obj: tp.Any, path: tp.Tuple[str, ...]) -> tp.Iterator[tp.Tuple[str, tp.Any]]:
        if isinstance(obj, dict):
            for k, v in obj.items():
                yield from leaves(v, path + (str(k),))
        elif isinstance(obj, (list, tuple)):
            for j, v in enumerate(obj):
                yield from leaves(v, path + (str(j),))
        else:
            yield ".".join(path), obj

    obj = build(depth)
    got = tools.flatten(obj)
    want: tp.Any = dict(leaves(obj, ())) if isinstance(obj, (dict, list, tuple)) else obj
    check(got == want, f"flatten({obj}) gives {got}", key="flatten")
    ch.state(repr(obj))


def defaults(ch: Chooser) -> None:
    class Thing:
        def __init__(self, a: int = 1, b: str = "b", *, c: tp.Any = None) -> None:
            self.a, self.b, self.c = a, b, c
            self.other = 12

    kwargs: tp.Dict[str, tp.Any] = {}
    for name, values in dict(a=[1, 2, 0], b=["b", ""], c=[None, 0, "c"]).items():
        value = ch.choose(["default"] + values, name)
        if value != "default":
            kwargs[name] = value
    ref = dict(a=1, b="b", c=None)
    want = {k: v for k, v in kwargs.items() if v != ref[k]}
    got = tools.different_from_defaults(instance=Thing(**kwargs))
    check(got == want, f"{got} instead of {want}", key="defaults")
    ref.update(kwargs)
    got = tools.different_from_defaults(instance=Thing(), instance_dict=ref, check_mismatches=True)
    check(got == want, f"{got} instead of {want}", key="defaults")
    missing = dict(ref)
    missing.pop(ch.choose(["a", "b", "c"], "missing"))
    got2 = outcome(lambda: tools.different_from_defaults(instance=Thing(), instance_dict=missing, check_mismatches=True))
    check(got2 == ("error", "RuntimeError"), f"a mismatch is not detected: {got2}", key="mismatch")
    got2 = outcome(lambda: tools.different_from_defaults(instance=Thing(), instance_dict=dict(ref, z=3), check_mismatches=True))
    check(got2 == ("error", "RuntimeError"), f"a mismatch is not detected: {got2}", key="mismatch")
    ch.state(sorted(kwargs))


def sleeper(ch: Chooser, depth: int, size: int) -> None:
    """sleeps a tenth of the average of the last durations (or of the current one if none), within its bounds"""
    clock = Clock()
    clock.tick = 0.0
    with clock.installed():
        real = tools.Sleeper(min_sleep=0.01, max_sleep=2.0, averaging_size=size)
        start: tp.Optional[float] = None
        durations: tp.List[float] = []
        for _ in range(depth):
            op = ch.choose(["start", "stop", "wait", "long", "sleep"], "operation")
            if op == "start":
                real.start_timer()
                start = clock.now if start is None else start
            elif op == "stop":
                real.stop_timer()
                if start is not None:
                    durations = (durations + [clock.now - start])[-size:]
                start = None
            elif op in ("wait", "long"):
                clock.now += 1.0 if op == "wait" else 100.0
            else:
                if durations:
                    want = float(np.clip(np.mean(durations) / 10, 0.01, 2.0))
                else:
                    want = 0.01 if start is None else float(np.clip((clock.now - start) / 10, 0.01, 2.0))
                t0 = clock.now
                real.sleep()
                check(abs(clock.now - t0 - want) < 1e-9, f"sleeps {clock.now - t0} instead of {want}", key="sleep")
            ch.state([round(d, 3) for d in durations], start is None)


def delayed(ch: Chooser, depth: int) -> None:
    """jobs of the sequential executor: evaluated lazily, at most once, with their own arguments"""
    executor = utils.SequentialExecutor()
    calls: tp.List[tp.Any] = []

    def func(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        calls.append((args, tuple(sorted(kwargs.items()))))
        return None if len(calls) % 2 else len(calls)

    jobs: tp.List[tp.Any] = []
    results: tp.Dict[int, tp.Any] = {}
    for _ in range(depth):
        op = ch.choose(["submit"] + [f"result{k}" for k in range(len(jobs))], "operation")
        if op == "submit":
            before = len(calls)
            jobs.append(executor.submit(func, len(jobs), k=len(jobs)))
            check(len(calls) == before, "evaluated at submission", key="lazy")
        else:
            k = int(op[6:])
            check(jobs[k].done(), "not done", key="done")
            before = len(calls)
            got = jobs[k].result()
            if k in results:
                check(len(calls) == before and got == results[k], f"job {k} is evaluated again", key="once")
            else:
                check(len(calls) == before + 1 and calls[-1] == ((k,), (("k", k),)), f"wrong call {calls[-1:]}", key="call")
                results[k] = got
                check(got == (None if len(calls) % 2 else len(calls)), f"wrong result {got}", key="result")
        ch.state(len(jobs), sorted(results))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    sets = [dict(depth=4 if deep else 3, keys="abc", prune=False, start=s) for s in ("", "ab", "aba")]
    sets += [dict(depth=9 if deep else 7, keys=k, prune=True, start="") for k in ("abc", "abcd")]
    return {
        "ordered_set": Scenario(ordered_set, sets[:3]),
        "ordered_set_deep": Scenario(ordered_set, sets[3:], dedupe=True),
        "uid_queue": Scenario(
            uid_queue,
            [dict(depth=7 if deep else 6, uids="ab", prune=False)],
        ),
        "uid_queue_deep": Scenario(
            uid_queue, [dict(depth=9 if deep else 7, uids="abc", prune=True), dict(depth=7 if deep else 6, uids="abcd", prune=True)], dedupe=True
        ),
        "archive": Scenario(archive, [dict(depth=4 if deep else 3)]),
        "registry": Scenario(registry, [dict(depth=4 if deep else 3, prune=False)]),
        "helpers": Scenario(helpers, [dict(size=7)]),
        "roundrobin": Scenario(roundrobin, [dict(number=n, size=s) for n, s in ((0, 1), (1, 3), (2, 4), (3, 4), (4, 3), (5, 2))]),
        "environment": Scenario(environment, [dict()]),
        "flatten": Scenario(flatten, [dict(depth=2, width=2)] + ([dict(depth=3, width=1)] if deep else [])),
        "defaults": Scenario(defaults, [dict()]),
        "sleeper": Scenario(sleeper, [dict(depth=7 if deep else 5, size=s) for s in (1, 2)]),
        "delayed": Scenario(delayed, [dict(depth=7 if deep else 6)]),
    }
