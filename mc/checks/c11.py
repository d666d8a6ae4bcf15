"""C11: dumping and loading an optimizer at any point changes nothing."""
import builtins
import gc
import io
import os
import pickle
import tempfile
import typing as tp
from pathlib import Path

import numpy as np
import nevergrad as ng
from mc import optim
from mc.engine import Chooser, Violation
from mc.lib import check, same, snap
from mc.main import Scenario

RULE = (
    "an execution is a sequence of operations (ask, tell a pending candidate in any order, suggest, foreign tell) on a real optimizer, dumped on disk at the end "
    "of the sequence (all prefixes are explored) with its pending candidates; it is loaded twice and the original and the loaded ones are then driven with the same "
    "losses, one after the other. A state is the observable state (counters, archive, bests, front) of the optimizer when dumped."
)
ASSUMPTIONS = [
    "third-party libraries which draw from the global random state or the clock, and optimizers documented as not picklable, are left out of the complete scan",
    "the candidates which were asked and not told are pickled by the user, along with the optimizer (to get the same future) or on their own (they are then recognized)",
]
LOSSES = [3.0, 1.0, 2.0, 0.5, 4.0, 0.5]


def param(kind: str) -> tp.Any:
    if kind == "array":
        return ng.p.Array(shape=(2,))
    if kind == "mixed":
        return ng.p.Instrumentation(ng.p.Scalar(lower=-1, upper=1), x=ng.p.Choice(["a", "b", "c"]), y=ng.p.TransitionChoice(range(4)), z=ng.p.Log(lower=0.1, upper=10))
    if kind == "discrete":
        return ng.p.Choice([0, 1, 2], repetitions=3)
    raise ValueError(kind)


def observed(opt: tp.Any, multi: bool) -> tp.Any:
    archive = sorted((k if isinstance(k, bytes) else bytes(k), v.mean, v.square, v.variance, v.count, snap(v.parameter.value), v.parameter.uid) for k, v in opt.archive.bytesdict.items())
    bests = {k: (snap(v.parameter.value), v.mean, v.count, v.variance) for k, v in opt.current_bests.items()}
    out = [opt.num_ask, opt.num_tell, opt.num_tell_not_asked, archive, sorted(bests.items()), opt.name, opt.budget, opt.num_workers, opt.num_objectives]
    if multi:
        out.append(sorted((tuple(c.losses), snap(c.value), c.uid) for c in opt.pareto_front()))
    return out


def tell(opt: tp.Any, cand: tp.Any, loss: tp.Any) -> None:
    try:
        opt.tell(cand, loss)
    except ng.errors.TellNotAskedNotSupportedError:
        pass  # some refuse suggested or foreign candidates


def drive(opt: tp.Any, pending: tp.List[tp.Any], steps: int, loss: tp.Callable[[int], tp.Any], multi: bool) -> tp.List[tp.Any]:
    """The future: same losses for everyone"""
    trace: tp.List[tp.Any] = []
    for k, c in enumerate(pending):
        tell(opt, c, loss(k + 2))
    if opt.num_tell and not multi:
        trace.append(("recommend", snap(opt.recommend().value)))
    for k in range(steps):
        cand = opt.ask()
        trace.append(("ask", snap(cand.value), cand.generation))
        tell(opt, cand, loss(k))
    if not multi:
        trace.append(("recommend", snap(opt.recommend().value)))
    trace.append([x for x in observed(opt, multi)[:3]])
    trace.append(sorted(x[:1] + x[1:5] for x in observed(opt, multi)[3]))
    return trace


def compare(
    opt: tp.Any, pending: tp.List[tp.Any], steps: int, objectives: int, name: str, ch: tp.Optional[Chooser] = None, apart: bool = False
) -> None:
    """apart: never two live optimizers (because of the global lock of Cobyla)"""
    multi = objectives > 1

    def loss(k: int) -> tp.Any:
        return LOSSES[k % len(LOSSES)] if not multi else [LOSSES[(k + j * j) % len(LOSSES)] for j in range(objectives)]

    before = observed(opt, multi)
    if ch is not None:
        ch.state(name, before[:3], snap([x[1:5] for x in before[3]]))
    cls = type(opt)
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder) / "dump.pkl"

        def save() -> None:
            if pending:  # along with the candidates, as one object
                path.write_bytes(pickle.dumps((opt, pending)))
            else:
                opt.dump(path)

        def restore() -> tp.Tuple[tp.Any, tp.List[tp.Any]]:
            if pending:
                return pickle.loads(path.read_bytes())  # type: ignore
            return cls.load(path), []

        save()
        content = path.read_bytes()
        check(same(observed(opt, multi), before), f"{name}: dumping altered the optimizer", key=name)
        if pending and not apart:  # candidates stored on their own
            opt.dump(Path(folder) / "alone.pkl")
            alone = cls.load(Path(folder) / "alone.pkl")
            check(same(observed(alone, multi), before), f"{name}: the loaded optimizer differs: {observed(alone, multi)} instead of {before}", key=name)
            joint, jpending = restore()
            for k, (c, j) in enumerate(zip(pickle.loads(pickle.dumps(pending)), jpending)):
                tell(alone, c, loss(k + 2))
                tell(joint, j, loss(k + 2))
            check(same(observed(alone, multi), observed(joint, multi)), f"{name}: the loaded optimizer does not recognize pending candidates", key=name)
            check(np.all(np.isfinite(np.asarray(alone.ask().get_standardized_data(reference=alone.parametrization)))), f"{name}: invalid ask", key=name)
        if apart:
            t0 = drive(opt, pending, steps, loss, multi)
            opt = None
            gc.collect()
        first, fpending = restore()
        check(apart or same(observed(opt, multi), before), f"{name}: loading altered the original", key=name)
        check(same(observed(first, multi), before), f"{name}: the loaded optimizer differs: {observed(first, multi)} instead of {before}", key=name)
        t1 = drive(first, fpending, steps, loss, multi)
        check(path.read_bytes() == content, f"{name}: using the loaded optimizer altered the file", key=name)
        if apart:
            t2 = t1
        else:
            check(same(observed(opt, multi), before), f"{name}: using the loaded optimizer altered the original", key=name)
            t0 = drive(opt, pending, steps, loss, multi)
            second, spending = restore()
            check(same(observed(second, multi), before), f"{name}: the second loaded optimizer differs", key=name)
            t2 = drive(second, spending, steps, loss, multi)
    for k, (a, b, c) in enumerate(zip(t0, t1, t2)):
        check(same(a, b), f"{name}: loaded optimizer does {b} instead of {a} at step {k}", key=name)
        check(same(a, c), f"{name}: second loaded optimizer does {c} instead of {a} at step {k}", key=name)
    check(len(t0) == len(t1) == len(t2), f"{name}: different futures", key=name)


def operate(ch: Chooser, opt: tp.Any, depth: int, workers: int, objectives: int, extras: bool) -> tp.List[tp.Any]:
    pending: tp.List[tp.Any] = []
    num = 0
    for step in range(depth):
        ops = ["dump"] + (["ask"] if len(pending) < workers else []) + [f"tell {k}" for k in range(len(pending))] + (["suggest", "foreign"] if extras else [])
        op = ch.choose(ops, "operation")
        if op == "dump":
            break
        value: tp.Any = LOSSES[num % 6] if objectives == 1 else [LOSSES[(num + j) % 6] for j in range(objectives)]
        if op == "ask":
            pending.append(opt.ask())
        elif op.startswith("tell"):
            tell(opt, pending.pop(int(op.split()[1])), value)
            num += 1
        else:
            child = opt.parametrization.spawn_child()
            child.set_standardized_data(np.linspace(0.1 * step, 0.4, opt.dimension))
            if op == "suggest":
                opt.suggest(*child.args, **child.kwargs)
            else:
                tell(opt, child, value)
                num += 1
    return pending


def histories(ch: Chooser, name: str, kind: str, depth: int, workers: int, prefix: int, objectives: int = 1, extras: bool = True) -> None:
    opt = optim.create(name, param(kind), budget=40, num_workers=workers)
    opt.parametrization.random_state.seed(12)
    if objectives > 1:
        opt.num_objectives = objectives
    for k in range(prefix):
        cand = opt.ask()
        opt.tell(cand, LOSSES[k % 6] if objectives == 1 else [LOSSES[(k + j) % 6] for j in range(objectives)])
    pending = operate(ch, opt, depth, workers, objectives, extras)
    compare(opt, pending, 4, objectives, name, ch)


def every(ch: Chooser, names: tp.List[str], kind: str, budget: int, points: tp.List[int], steps: int) -> None:
    """one history for every registered optimizer, dumped at several points, with or without a pending candidate"""
    name = ch.choose(names, "optimizer")
    point = ch.choose(points, "operations before the dump")
    opt = optim.create(name, param(kind), budget=budget, num_workers=1)
    opt.parametrization.random_state.seed(12)
    if hasattr(opt, "enable_pickling"):
        opt.enable_pickling()
    cand = None
    for k in range(point):
        if k % 2 == 0:
            cand = opt.ask()
        else:
            opt.tell(cand, LOSSES[(k // 2) % 6])
            cand = None
    box = [opt]
    del opt
    compare(box.pop(), [] if cand is None else [cand], steps, 1, name, ch, apart=name in optim.WITH_COBYLA)


class Fault(OSError):
    pass


class Disk:
    """Counts the operations on files and strikes at the chosen one (a write being torn at the chosen point)"""

    def __init__(self, strike: int, torn: float, kind: type) -> None:
        self.count = 0
        self.strike, self.torn, self.kind = strike, torn, kind
        self.struck = False

    def step(self) -> bool:
        self.count += 1
        if self.count - 1 == self.strike:
            self.struck = True
        return self.struck

    def fail(self) -> None:
        raise self.kind("interrupted")


class File:
    def __init__(self, f: tp.Any, disk: Disk) -> None:
        self.f, self.disk = f, disk

    def write(self, data: tp.Any) -> int:
        if self.disk.step():
            raw = bytes(data)
            self.f.write(raw[: int(self.disk.torn * len(raw))])
            self.disk.fail()
        return self.f.write(data)

    def close(self) -> None:
        self.f.close()

    def __enter__(self) -> "File":
        return self

    def __exit__(self, *args: tp.Any) -> None:
        self.f.close()

    def __getattr__(self, name: str) -> tp.Any:
        return getattr(self.f, name)


def crash(ch: Chooser, name: str, how: str) -> None:
    """a dump which fails at any operation on the files (or when pickling) leaves the previous one readable"""
    opt = optim.create(name, param("array"), budget=40)
    opt.parametrization.random_state.seed(12)
    cand = opt.ask()
    opt.tell(cand, 1.0)
    kind: tp.Any = dict(error=Fault, interrupt=KeyboardInterrupt).get(how)
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder) / "dump.pkl"
        opt.dump(path)
        old = observed(opt, False)
        for k in range(3):
            cand = opt.ask()
            opt.tell(cand, float(k))
        new = observed(opt, False)
        failed = False
        disk = Disk(-1, 0.0, Fault)
        if how == "unpicklable":
            opt.unpicklable = lambda: None
        else:
            disk = Disk(ch.choose(12, "operation"), ch.choose([0.0, 0.5, 1.0], "torn write"), kind)
        saved = builtins.open, io.open, os.replace, os.rename, os.unlink

        def fopen(file: tp.Any, mode: str = "r", *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            if disk.step():
                if not isinstance(file, int) and ("w" in mode) and disk.torn:
                    saved[0](file, mode).close()
                disk.fail()
            return File(saved[0](file, mode, *args, **kwargs), disk)

        def guard(func: tp.Any) -> tp.Any:
            def wrapped(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
                if disk.step():
                    disk.fail()
                return func(*args, **kwargs)

            return wrapped

        builtins.open = io.open = fopen  # type: ignore
        os.replace, os.rename, os.unlink = guard(saved[2]), guard(saved[3]), guard(saved[4])
        try:
            opt.dump(path)
        except BaseException as e:  # pylint: disable=broad-except
            if not (isinstance(e, kind) if kind else isinstance(e, Exception)):
                raise
            failed = True
        finally:
            builtins.open, io.open, os.replace, os.rename, os.unlink = saved  # type: ignore
        check(failed or not disk.struck, f"{name}: the failure of a dump is not reported")
        check(path.exists(), f"{name}: no dump is left after a dump failed")
        try:
            loaded = type(opt).load(path)
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(f"{name}: a failed dump destroyed the previous one: {type(e).__name__} {e}", key="crash")
        got = observed(loaded, False)
        check(same(got, new) or failed and same(got, old), f"{name}: the file holds {got}")
        ch.state(name, how, disk.strike, disk.torn, failed, disk.struck)


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    reg = ng.optimizers.registry
    d = 1 if deep else 0
    few = "OnePlusOne DE PSO CMA TBPSA NGOpt RandomSearch ScrHammersleySearch cGA NoisyDE Portfolio TwoPointsDE DiscreteOnePlusOne EDA NoisyBandit".split()
    cfgs = [dict(name=n, kind="array", depth=4 + d, workers=2, prefix=0) for n in few if n in reg]
    cfgs += [dict(name=n, kind="mixed", depth=3 + d, workers=2, prefix=6) for n in few if n in reg]
    cfgs += [dict(name=n, kind="array", depth=4 + d, workers=2, prefix=3, objectives=2, extras=n != "CMA") for n in ("DE", "OnePlusOne", "CMA", "NGOpt", "RandomSearch") if n in reg]
    names = [n for n in optim.names(slow=deep) if n not in optim.NOT_PICKLABLE]
    ev = [dict(names=c, kind="array", budget=30, points=[3, 8], steps=3) for c in optim.chunks(names, 16)]
    if deep:
        ev += [dict(names=c, kind=k, budget=30, points=[0, 5, 16], steps=5) for c in optim.chunks(names, 16) for k in ("mixed", "discrete")]
    return {"histories": Scenario(histories, cfgs), "every": Scenario(every, ev), "crash": Scenario(crash, [dict(name=n, how=h) for n in ("OnePlusOne", "DE") for h in ("error", "interrupt", "unpicklable")])}

