"""C29: logged histories are complete and readable back."""
import contextlib
import io
import itertools
import json
import logging
import math
import pickle
import shutil
import tempfile
import typing as tp
import warnings
from pathlib import Path

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.optimization import callbacks
from mc import optim
from mc.engine import Chooser
from mc.lib import Clock, check, same
from mc.main import Scenario

RULE = (
    "an execution drives an optimizer through an explored sequence of asks, tells of asked or of unknown candidates with explored losses, and changes of logger (appending or replacing), and the loaded records are "
    "compared after each operation to an independent list; or truncates a log at one of its bytes and goes on; or runs a printing callback through explored jumps of a virtual clock; or compares whole runs "
    "with and without callbacks; or runs a stopping criterion on all sequences of losses over a small alphabet. A state is the list of records and of pending candidates."
)
ASSUMPTIONS = ["a crash while writing leaves a prefix of the bytes of the last record", "constants are not logged (they do not vary)", "names of parameters do not collide with the names of the columns of the log"]


@contextlib.contextmanager
def folder() -> tp.Iterator[Path]:
    path = tempfile.mkdtemp(prefix="mc_c29_")
    try:
        yield Path(path)
    finally:
        shutil.rmtree(path)


def make(kind: str) -> tp.Any:
    if kind == "scalar":
        return ng.p.Scalar(init=0.5)
    if kind == "array":
        return ng.p.Array(shape=(2, 2)).set_bounds(-3, 3)
    if kind == "log":
        return ng.p.Log(lower=0.1, upper=10.0)
    if kind == "objects":  # choices among values which json does not know
        return ng.p.Instrumentation(ng.p.Choice([np.float32(1.5), np.float32(2.5)]), f=len, s=ng.p.Choice([frozenset([1]), "b"]))
    return ng.p.Instrumentation(ng.p.Scalar(init=1.0), "txt", a=ng.p.Array(shape=(2,)), c=ng.p.Choice(["u", "v", 3]), d=ng.p.Dict(x=ng.p.Scalar(), y=(1, None)), i=ng.p.Scalar(lower=0, upper=9).set_integer_casting())


def plain(value: tp.Any) -> tp.Any:
    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, np.generic):
        return value.item()
    if isinstance(value, tuple):
        return list(value)
    return value if isinstance(value, (int, float, str, bool, type(None))) else repr(value)


def values(kind: str, cand: tp.Any) -> tp.Dict[str, tp.Any]:
    if kind in ("scalar", "array", "log"):
        return {"0": plain(cand.value)}
    if kind == "objects":
        return {"0": plain(cand.args[0]), "s": plain(cand.kwargs["s"])}
    kw = cand.kwargs
    out = {"0": cand.args[0], "a": kw["a"], "c": kw["c"], "d.x": kw["d"]["x"], "i": kw["i"]}
    return {x: plain(y) for x, y in out.items()}


def same_record(got: tp.Dict[str, tp.Any], expected: tp.Dict[str, tp.Any]) -> bool:
    return all(x in got and json.dumps(got[x]) == json.dumps(y) for x, y in expected.items())


def read(path: Path) -> tp.List[tp.Dict[str, tp.Any]]:
    return callbacks.ParametersLogger(path).load()


def compare(path: Path, model: tp.List[tp.Dict[str, tp.Any]], what: str) -> None:
    logs = read(path)
    check(len(logs) == len(model), f"{len(logs)} records instead of {len(model)} {what}", key="number")
    for k, (got, exp) in enumerate(zip(logs, model)):
        wrong = {x: (got.get(x, "missing"), y) for x, y in exp.items() if not same_record(got, {x: y})}
        check(not wrong, f"record {k}: {wrong} {what}", key=f"record:{sorted(wrong)[0]}" if wrong else None)


LOSSES: tp.Dict[bool, tp.List[tp.Any]] = {False: [1.0, 0.25, math.inf, math.nan], True: [[1.0, 2.0], [2.0, 0.5]]}


def history(ch: Chooser, kind: str, name: str, multi: bool, depth: int) -> None:
    warnings.simplefilter("ignore")
    with folder() as tmp:
        path = tmp / "sub" / "log.txt"
        param = make(kind)
        param.random_state.seed(12)
        opt = optim.create(name, param, 20, 3)
        logger = callbacks.ParametersLogger(path, append=True)
        opt.register_callback("tell", logger)
        model: tp.List[tp.Dict[str, tp.Any]] = []
        pending: tp.List[tp.Any] = []
        counts = {"ask": 0, "tell": 0, "not": 0}
        trace: tp.List[tp.Any] = []
        for _ in range(depth):
            actions: tp.List[tp.Any] = (["ask"] if len(pending) < 2 else []) + [("tell", k) for k in range(len(pending))] + ["not-asked", "append", "replace"]
            act = ch.choose(actions, "action")
            trace.append(act)
            if act == "ask":
                pending.append(opt.ask())
                counts["ask"] += 1
            elif act in ("append", "replace"):
                opt.remove_all_callbacks()
                opt.register_callback("tell", callbacks.ParametersLogger(path, append=act == "append"))
                if act == "replace":
                    model = []
            else:
                if act == "not-asked":
                    cand = opt.parametrization.spawn_child()
                else:
                    cand = pending.pop(act[1])
                loss = ch.choose(LOSSES[multi], "loss")
                trace.append(loss)
                exp = values(kind, cand)
                exp.update({"#uid": cand.uid, "#generation": cand.generation, "#lineage": cand.heritage["lineage"], "#optimizer": opt.name, "#parametrization": opt.parametrization.name})
                exp.update({"#num-ask": counts["ask"], "#num-tell": counts["tell"], "#num-tell-not-asked": counts["not"]})
                exp["#parents_uids"] = list(cand.parents_uids) if cand.generation > 1 else []
                if multi:
                    exp.update({f"#losses#{k}": v for k, v in enumerate(loss)})
                else:
                    exp["#loss"] = loss if math.isfinite(loss) else 5e20  # announced clipping
                try:
                    opt.tell(cand, loss)
                except errors.TellNotAskedNotSupportedError:
                    ch.state(("refused", act, len(model)))
                    return
                counts["tell"] += 1
                counts["not"] += act == "not-asked"
                model.append(exp)
            compare(path, model, f"after {trace} ({kind}, {name})")
            ch.state((kind, name, tuple(json.dumps(m, sort_keys=True, default=str) for m in model), len(pending)))


def truncate(ch: Chooser, kind: str, records: int) -> None:
    warnings.simplefilter("ignore")
    with folder() as tmp:
        path = tmp / "log.txt"
        param = make(kind)
        param.random_state.seed(12)
        opt = ng.optimizers.OnePlusOne(param, budget=10)
        opt.register_callback("tell", callbacks.ParametersLogger(path))
        for k in range(records):
            opt.tell(opt.ask(), float(k))
        content = path.read_bytes()
        logs = read(path)
        check(len(logs) == records, f"{len(logs)} records", key="number")
        ends = [k + 1 for k, c in enumerate(content) if c == 10]
        # bytes of identifiers are random, but their number is not
        cut = ch.choose(range(ends[-2] if records > 1 else 0, len(content) + 1), "truncation")
        path.write_bytes(content[:cut])
        kept = sum(e - 1 <= cut for e in ends)
        try:
            got = read(path)
        except Exception as e:  # pylint: disable=broad-except
            check(False, f"a log truncated at byte {cut} of {len(content)} cannot be read: {e!r}", key="unreadable")
        check(got == logs[:kept], f"truncation at byte {cut}: {len(got)} records instead of the first {kept}", key="truncated")
        how = ch.choose(["same logger", "new logger", "two new loggers"], "continuation")
        if how != "same logger":  # the process was restarted
            opt.remove_all_callbacks()
            for _ in range(2 if how == "two new loggers" else 1):
                logger = callbacks.ParametersLogger(path)
            opt.register_callback("tell", logger)
        cand = opt.ask()
        opt.tell(cand, 12.5)
        opt.tell(opt.ask(), 13.5)
        got = read(path)
        check([x["#loss"] for x in got] == [float(k) for k in range(kept)] + [12.5, 13.5], f"truncation at byte {cut}, {how}: losses {[x['#loss'] for x in got]}", key="continued")
        ch.state((kind, cut, how, kept))


def flattened(ch: Chooser, depth: int) -> None:
    with folder() as tmp:
        path = tmp / "log.txt"
        shape = ch.choose([(1,), (4,), (2, 2), (2, 1, 3), (1, 1)], "shape")
        maximum = ch.choose([0, 1, 3, 24], "max")
        order = ch.choose([0, 1, 2], "order")
        param = ng.p.Instrumentation(ng.p.Array(shape=shape).set_mutation(sigma=ng.p.Log(init=2.0)), x=ng.p.Choice([1, ng.p.Scalar()]))
        opt = ng.optimizers.DE(param, budget=10, num_workers=2)
        logger = callbacks.ParametersLogger(path, order=order)
        opt.register_callback("tell", logger)
        for _ in range(depth):
            opt.tell(opt.ask(), 1.0)
        raw, flat = logger.load(), logger.load_flattened(max_list_elements=maximum)
        check(len(raw) == len(flat) == depth, f"{len(raw)} {len(flat)}", key="number")
        for r, f in zip(raw, flat):
            exp = {}
            for key, val in r.items():
                if not isinstance(val, list):
                    exp[key] = val
                    continue
                arr = np.array(val)
                for k, index in enumerate(itertools.product(*(range(s) for s in arr.shape))):
                    if k < maximum:
                        exp[key + "#" + "_".join(str(i) for i in index)] = arr[index].item()
            check(f == exp, f"flattened record {f} instead of {exp}", key="flattened")
            has_sub = any(x.startswith("x#") and x != "x#sigma" or x.startswith("0#sigma#") for x in r if x not in ("x", "0", "0#sigma"))
            check(has_sub == (order > 0), f"order {order}: columns {sorted(r)}", key="order")
        ch.state((shape, maximum, order))


class _Keep(logging.Handler):
    def __init__(self) -> None:
        super().__init__()
        self.lines: tp.List[str] = []

    def emit(self, record: tp.Any) -> None:
        self.lines.append(record.getMessage())


def printing(ch: Chooser, which: str, interval: int, multi: bool, tells: int) -> None:
    clock = Clock()
    period = 60.0
    handler = _Keep()
    with clock.installed():
        param = ng.p.Array(shape=(2,))
        param.random_state.seed(3)
        opt = ng.optimizers.OnePlusOne(param, budget=50)
        if which == "printer":
            cb: tp.Any = callbacks.OptimizationPrinter(print_interval_tells=interval, print_interval_seconds=period)
        else:
            log = logging.Logger("mc")
            log.addHandler(handler)
            cb = callbacks.OptimizationLogger(logger=log, log_interval_tells=interval, log_interval_seconds=period)
        opt.register_callback("tell", cb)
        next_tell, next_time = 0, clock.now + period
        for k in range(tells):
            if ch.flag("a period of time elapsed"):
                clock.now += period + 1
            cand = opt.ask()
            expected = clock.now >= next_time or k >= next_tell
            if expected:
                next_tell, next_time = k + interval, clock.now + period
            out = io.StringIO()
            handler.lines.clear()
            before = None if multi or not k else str(opt.recommend())
            with contextlib.redirect_stdout(out):
                opt.tell(cand, [float(k % 3), float(-k % 4)] if multi else float((k * 7) % 5))
            lines = out.getvalue().splitlines() if which == "printer" else list(handler.lines)
            check(len(lines) == int(expected), f"{which} with an interval of {interval}: {len(lines)} report(s) at tell {k} instead of {int(expected)}", key="interval")
            if lines:
                check(lines[0].startswith(f"After {k}, "), f"report {lines} at tell {k}", key="report")
                if before is not None:
                    check(lines[0].endswith(f"recommendation is {before}"), f"{lines[0]} instead of {before}", key="report")
            ch.state((which, interval, multi, k, expected))


def never(opt: tp.Any) -> bool:
    return False


def everything(tmp: Path, multi: bool) -> tp.List[tp.Tuple[str, tp.Any]]:
    log = logging.getLogger("mc_c29")  # can be pickled
    cbs: tp.List[tp.Tuple[str, tp.Any]] = [
        ("tell", callbacks.ParametersLogger(tmp / "log.txt")),
        ("tell", callbacks.OptimizationPrinter()),
        ("tell", callbacks.OptimizationLogger(logger=log)),
        ("tell", callbacks.OptimizerDump(tmp / "dump.pkl")),
        ("ask", callbacks.EarlyStopping(never)),
        ("ask", callbacks.EarlyStopping.timer(1e6)),
        ("ask", callbacks.EarlyStopping.no_improvement_stopper(1000)),
    ]
    try:
        import tqdm  # pylint: disable=unused-import, import-outside-toplevel
    except ImportError:
        return cbs
    return cbs + [("tell", callbacks.ProgressBar())]


def neutral(ch: Chooser, names: tp.List[str], budget: int) -> None:
    name = ch.choose(names, "optimizer")
    multi = ch.flag("multiobjective")
    workers = ch.choose([1, 3], "workers")
    warnings.simplefilter("ignore")
    runs: tp.List[tp.Any] = []
    for with_callbacks in (False, True):
        param = ng.p.Instrumentation(ng.p.Array(shape=(2,)), c=ng.p.Choice(["a", "b"]))
        param.random_state.seed(7)
        points: tp.List[tp.Any] = []
        with folder() as tmp, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            np.random.seed(4)
            try:
                opt = optim.create(name, param, budget, workers)
            except Exception:  # pylint: disable=broad-except
                ch.state((name, "refused"))
                return
            if hasattr(opt, "enable_pickling"):
                opt.enable_pickling()
            if with_callbacks:
                for when, cb in everything(tmp, multi):
                    opt.register_callback(when, cb)
            pending: tp.List[tp.Any] = []
            try:
                for k in range(budget):
                    pending.append(opt.ask())
                    points.append(("ask", pending[-1].args[0].tolist(), pending[-1].kwargs["c"]))
                    if len(pending) == opt.num_workers:
                        cand = pending.pop(0)
                        x = cand.args[0]
                        loss: tp.Any = [float(np.sum(x**2)), float(np.sum((x - 1) ** 2))] if multi else float(np.sum((x - 0.5) ** 2)) + (cand.kwargs["c"] == "a")
                        opt.tell(cand, loss)
                points.append(("recommend", None if multi else opt.recommend().args[0].tolist()))
            except Exception as e:  # pylint: disable=broad-except
                points.append(("error", repr(e)))
            if with_callbacks and points[-1][0] != "error" and isinstance(opt, ng.optimization.base.Optimizer):
                check(len(read(tmp / "log.txt")) == opt.num_tell, f"{name}: {len(read(tmp / 'log.txt'))} records for {opt.num_tell} tells", key=f"{name}:records")
        runs.append(points)
    if not same(runs[0], runs[1]):
        k = next((k for k, (a, b) in enumerate(zip(*runs)) if not same(a, b)), min(map(len, runs)))
        check(False, f"{name} (multiobjective: {multi}, workers: {workers}): callbacks change the optimization at step {k}: {[r[k] if k < len(r) else None for r in runs]}", key=f"{name}:altered")
    ch.state((name, multi, workers, len(runs[0])))


def stopping(ch: Chooser, name: str, multi: bool, window: int, length: int) -> None:
    warnings.simplefilter("ignore")
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(3)
    opt = optim.create(name, param, length, 1)
    losses = [ch.choose([1.0, 2.0, 0.5], "loss") for _ in range(length)]
    opt.register_callback("ask", callbacks.EarlyStopping.no_improvement_stopper(window))
    told: tp.List[tp.Any] = []

    def func(x: tp.Any) -> tp.Any:
        loss = losses[len(told)]
        told.append(loss)
        return [loss, loss] if multi else loss

    opt.minimize(func)
    # reference: consecutive asks since the best decreased
    best, count, stop = math.inf, 0, length
    for k in range(1, length):  # ask number k (from 0), after k evaluations
        new = min(losses[:k])
        if new < best:
            best, count = new, 0
        else:
            count += 1
        if count > window:
            stop = k
            break
    check(len(told) == stop, f"{name} with losses {losses} and a window of {window}: {len(told)} evaluations instead of {stop}", key=f"{name}:window")
    check(opt.num_tell == stop, f"{opt.num_tell} tells for {stop} evaluations", key="tells")
    ch.state((name, multi, window, tuple(losses[:stop])))


def timer(ch: Chooser, length: int) -> None:
    clock = Clock()
    with clock.installed():
        duration = ch.choose([1.0, 5.0], "duration")
        jumps = [ch.choose([0.0, 0.4, 2.0], "jump") for _ in range(length)]
        opt = ng.optimizers.OnePlusOne(2, budget=length)
        stopper = callbacks.EarlyStopping.timer(duration)
        opt.register_callback("ask", stopper)
        clock.now += 50.0  # starts at the first ask
        done: tp.List[float] = []

        def func(x: tp.Any) -> float:
            clock.now += jumps[len(done)]
            done.append(clock.now)
            return 1.0

        opt.minimize(func)
        total, stop = 0.0, length
        for k in range(1, length):
            total += jumps[k - 1]
            if total > duration - 1e-3:  # no sum of jumps is equal to the duration up to this
                stop = k
                break
        if any(abs(sum(jumps[:k]) - duration) < 1e-2 for k in range(length)):
            ch.state("limit case")
            return
        check(len(done) == stop, f"timer of {duration} with evaluations of {jumps}: {len(done)} evaluations instead of {stop}", key="timer")
        ch.state((duration, tuple(jumps[:stop])))


def dump(ch: Chooser, names: tp.List[str], depth: int) -> None:
    name = ch.choose(names, "optimizer")
    warnings.simplefilter("ignore")
    with folder() as tmp:
        path = tmp / "dump.pkl"
        param = make("mixed")
        param.random_state.seed(5)
        opt = optim.create(name, param, 20, 2)
        opt.register_callback("tell", callbacks.OptimizerDump(path))
        pending: tp.List[tp.Any] = []
        asks = 0
        for k in range(depth):
            while len(pending) < 1 + ch.flag("two workers"):
                pending.append(opt.ask())
                asks += 1
            opt.tell(pending.pop(), 1.0 + k)
            loaded = type(opt).load(path)
            check(loaded.num_tell == k and loaded.num_ask == asks, f"{name}: dump with {loaded.num_tell} tells and {loaded.num_ask} asks at tell {k} (the callback is called before the update)", key="dump")
            loaded.tell(loaded.ask(), 3.0)
        ch.state((name, asks))


def usage(ch: Chooser) -> None:
    opt = ng.optimizers.OnePlusOne(2, budget=5)
    which = ch.choose(["stopper on tell", "unknown method", "early stopping keeps the results", "progress"], "case")
    if which == "stopper on tell":
        opt.register_callback("tell", callbacks.EarlyStopping(lambda o: True))
        try:
            opt.tell(opt.ask(), 1.0)
            check(False, "a stopper was accepted on tell", key="stopper")
        except errors.NevergradRuntimeError:
            pass
    elif which == "unknown method":
        try:
            opt.register_callback("recommend", lambda *args: None)
            check(False, "unknown method accepted", key="method")
        except AssertionError:
            pass
    elif which == "progress":
        try:
            import tqdm  # pylint: disable=unused-import, import-outside-toplevel
        except ImportError:
            return
        bar = callbacks.ProgressBar()
        opt.register_callback("tell", bar)
        with contextlib.redirect_stderr(io.StringIO()):
            for k in range(5):
                opt.tell(opt.ask(), 1.0)
                check(bar._progress_bar.n == k + 1 and bar._progress_bar.total == 5, f"progress {bar._progress_bar.n} of {bar._progress_bar.total} after {k + 1} tells", key="progress")
                if ch.flag("pickled"):
                    bar = pickle.loads(pickle.dumps(bar))
                    opt.remove_all_callbacks()
                    opt.register_callback("tell", bar)
    else:
        limit = ch.choose(range(5), "limit")
        opt.register_callback("ask", callbacks.EarlyStopping(lambda o: o.num_ask >= limit))
        seen: tp.List[tp.Any] = []
        recom = opt.minimize(lambda x: (seen.append(x.tolist()), float(-len(seen)))[1])
        check(len(seen) == limit and opt.num_tell == limit, f"{len(seen)} evaluations for a limit of {limit}", key="limit")
        if limit:
            check(recom.value.tolist() == seen[-1], f"{recom.value} instead of {seen[-1]}", key="recommendation")
    ch.state(which)


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier != "quick"
    out: tp.Dict[str, Scenario] = {}
    cfgs = [dict(kind=k, name=n, multi=m, depth=(5 if deep else 4 if n == "DE" else 3)) for k, n, m in [("mixed", "DE", False), ("mixed", "OnePlusOne", False), ("objects", "OnePlusOne", False), ("array", "DE", True), ("log", "PSO", False), ("scalar", "TBPSA", False), ("scalar", "CMA", False)]]
    out["history"] = Scenario(history, cfgs)
    out["truncate"] = Scenario(truncate, [dict(kind=k, records=r) for k in (("scalar", "array", "mixed", "objects") if deep else ("scalar", "objects")) for r in ((1, 2, 3, 4) if deep else (2,))])
    out["flattened"] = Scenario(flattened, [dict(depth=d) for d in ((1, 3, 8) if deep else (3,))])
    out["printing"] = Scenario(printing, [dict(which=w, interval=i, multi=m, tells=(11 if deep else 9)) for w in ("printer", "logger") for i in (1, 2, 3, 5) for m in (False, True)], max_dev=4 if deep else 3)
    bad = optim.WITH_COBYLA | optim.NOT_PICKLABLE | optim.UNSTABLE | optim.TWO_COBYLAS_LATER | {"NGDSRW"}  # see the known findings of C11, C12 and C14
    names = [n for n in optim.names(slow=deep) if n not in bad and (deep or n not in optim.MEDIUM)]
    out["neutral"] = Scenario(neutral, [dict(names=c, budget=12 if deep else 8) for c in optim.chunks(names, 32)])
    out["stopping"] = Scenario(stopping, [dict(name=n, multi=m, window=w, length=(7 if deep else 6)) for n, m in [("OnePlusOne", False), ("CMA", False), ("DE", False), ("PSO", False), ("TBPSA", False), ("RandomSearch", False), ("OnePlusOne", True), ("DE", True)] for w in (0, 1, 2)])
    out["timer"] = Scenario(timer, [dict(length=(6 if deep else 5))])
    out["dump"] = Scenario(dump, [dict(names=["OnePlusOne", "DE", "PSO", "CMA", "NGOpt", "TBPSA", "ES"], depth=4 if deep else 3)])
    out["usage"] = Scenario(usage, [{}])
    return out
