"""C26: the simulated executor releases jobs in the order of their virtual completion."""
import typing as tp

import nevergrad as ng
from nevergrad.benchmark.execution import MockedTimedExecutor
from nevergrad.functions import ExperimentFunction
from mc.engine import Chooser, Violation
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution is one interleaving of submissions, polls and reads on the real executor with one assignment of durations, compared after each operation "
    "with a discrete-event reference; all of them are enumerated up to the depth, directly and through the real minimize loop. A state is the reference's "
    "(submitted, released, read) jobs and its time."
)
ASSUMPTIONS = ["durations come from compute_pseudotime of an ExperimentFunction (1 for other callables, negative durations counted as 0)"]


class Timed(ExperimentFunction):
    """Function whose duration is given, per call"""

    def __init__(self) -> None:
        super().__init__(self._func, ng.p.Scalar().set_name(""))
        self.durations: tp.Dict[int, float] = {}
        self.calls: tp.List[int] = []
        self.fail: tp.Set[int] = set()

    def _func(self, x: float) -> float:
        self.calls.append(int(x))
        if int(x) in self.fail:
            self.fail.discard(int(x))
            raise KeyError("failing once")
        return 100.0 + x

    def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
        x = int(input_parameter[0][0])
        check(loss == 100.0 + x, f"duration of job {x} is computed with loss {loss}", key="duration")
        return self.durations[x]


class Reference:
    def __init__(self, batch: bool) -> None:
        self.batch = batch
        self.time = 0.0
        self.release: tp.Dict[int, float] = {}
        self.read: tp.List[int] = []

    def submit(self, k: int, duration: float) -> None:
        self.release[k] = self.time + max(0.0, duration)

    def current(self) -> tp.Optional[int]:
        left = [(r, k) for k, r in self.release.items() if k not in self.read]
        return min(left)[1] if left else None

    def done(self, k: int) -> bool:
        return self.batch or k in self.read or k == self.current()

    def notify(self, k: int) -> None:
        if k not in self.read:
            self.read.append(k)
            self.time = max(self.time, self.release[k])


def operations(ch: Chooser, depth: int, jobs: int, durations: tp.List[float], batch: bool, fail: bool) -> None:
    real = MockedTimedExecutor(batch_mode=batch)
    ref = Reference(batch)
    func = Timed()
    handles: tp.List[tp.Any] = []
    for step in range(depth):
        ops = (["submit"] if len(handles) < jobs else []) + [f"done{k}" for k in range(len(handles))] + [f"result{k}" for k in range(len(handles)) if k not in ref.read]
        op = ch.choose(ops, "operation")
        if op == "submit":
            k = len(handles)
            func.durations[k] = ch.choose(durations, "duration")
            if fail and ch.flag("fails once"):
                func.fail.add(k)
            before = len(func.calls)
            handles.append(real.submit(func, k))
            check(len(func.calls) == before, "the function is evaluated at submission, before the virtual time", key="lazy")
            ref.submit(k, func.durations[k])
        elif op.startswith("done"):
            k = int(op[4:])
            try:
                got = handles[k].done()
            except KeyError:
                check(fail, "unexpected error", key="error")
                continue
            check(got == ref.done(k), f"job {k} done: {got}, but jobs are released at {ref.release}, {ref.read} were read", key="done")
        else:
            k = int(op[6:])
            try:
                got = handles[k].result()
            except KeyError:
                check(fail, "unexpected error", key="error")
                continue
            except RuntimeError:
                check(not ref.done(k), f"reading job {k} is refused, but jobs are released at {ref.release}, {ref.read} were read", key="refused")
                continue
            check(ref.done(k), f"job {k} is read before its turn: released at {ref.release}, {ref.read} were read", key="early")
            check(got == 100.0 + k, f"job {k} gives {got}", key="value")
            ref.notify(k)
        check(real.time == ref.time, f"time {real.time} instead of {ref.time} (released at {ref.release}, read {ref.read})", key="time")
        ch.state(sorted(ref.release.items()), ref.read, ref.time)
    # everything can be read to the end, in order
    for _ in range(len(handles) - len(ref.read)):
        k = ref.current() if not batch else [k for k in range(len(handles)) if k not in ref.read][0]
        assert k is not None
        for attempt in range(3):
            try:
                ready = [j for j in range(len(handles)) if j not in ref.read and handles[j].done()]
                if not batch:
                    check(ready == [k], f"jobs {ready} are done instead of {k} only", key="one")
                check(handles[k].result() == 100.0 + k, f"wrong value for {k}", key="value")
                break
            except KeyError:
                check(fail, "unexpected error", key="error")
        ref.notify(k)
        check(real.time == ref.time, f"time {real.time} instead of {ref.time}", key="time")
    if not fail:
        check(sorted(func.calls) == list(range(len(handles))), f"evaluations {func.calls} of {len(handles)} jobs", key="once")


def read_twice(ch: Chooser, jobs: int, batch: bool) -> None:
    """a job which was released can be read again at any time"""
    real = MockedTimedExecutor(batch_mode=batch)
    handles = [real.submit(lambda k: 100 + k, k) for k in range(jobs)]
    for k in range(jobs):
        check(handles[k].result() == 100 + k, "wrong value", key="value")
        again = ch.choose(range(k + 1), "read again")
        try:
            check(handles[again].result() == 100 + again, "wrong value the second time", key="value")
        except (AssertionError, IndexError) as e:
            raise Violation(f"job {again} cannot be read twice: {type(e).__name__} {e}", key="twice")
        ch.state(k, again)


def plain(ch: Chooser, jobs: int) -> None:
    """callables which are not experiment functions last 1"""
    real = MockedTimedExecutor(batch_mode=ch.choose([False, True], "batch"))
    handles = [real.submit(lambda a, b=0: (a, b), k, b=k) for k in range(jobs)]
    for k in range(jobs):
        check(handles[k].done() and handles[k].result() == (k, k), f"job {k}", key="plain")
        check(real.time == 1.0, f"time {real.time}", key="time")
    again = real.submit(lambda: "x")
    check(again.result() == "x" and real.time == 2.0, f"time {real.time}", key="time")
    ch.state(jobs)


def minimize(ch: Chooser, budget: int, workers: int, durations: tp.List[float], batch: bool) -> None:
    """the optimizer gets the losses in the order of the virtual completions"""
    func = Timed()
    order: tp.List[int] = []
    chosen: tp.Dict[int, float] = {}
    asked: tp.Dict[float, int] = {}

    class Indexed(ExperimentFunction):
        def __init__(self) -> None:
            super().__init__(self._func, ng.p.Scalar().set_name(""))

        def _func(self, x: float) -> float:
            return float(asked[x])

        def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
            return chosen[asked[input_parameter[0][0]]]

    func2 = Indexed()
    opt = ng.optimizers.registry["RandomSearch"](func2.parametrization, budget=budget, num_workers=workers)
    submissions: tp.List[tp.Tuple[int, float]] = []
    executor = MockedTimedExecutor(batch_mode=batch)

    def on_ask(optimizer: tp.Any) -> None:
        pass

    def on_tell(optimizer: tp.Any, candidate: tp.Any, loss: float) -> None:
        order.append(asked[candidate.value])
        check(loss == asked[candidate.value], f"candidate {asked[candidate.value]} gets the loss of {loss}", key="loss")

    opt.register_callback("tell", on_tell)
    original = executor.submit

    def submit(fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        k = len(asked)
        asked[args[0]] = k
        chosen[k] = ch.choose(durations, "duration")
        submissions.append((k, executor.time))
        return original(fn, *args, **kwargs)

    executor.submit = submit  # type: ignore
    opt.minimize(func2, executor=executor, batch_mode=batch)
    # reference simulation
    ref = Reference(batch)
    want: tp.List[int] = []
    sub = 0
    while len(want) < budget:
        while sub < budget and sub - len(want) < workers:
            ref.submit(sub, chosen[sub])
            check(submissions[sub] == (sub, ref.time), f"submission {submissions[sub]} instead of {(sub, ref.time)}", key="submit")
            sub += 1
        if batch:
            batchjobs = [k for k in range(sub) if k not in want]
            for k in batchjobs:
                ref.notify(k)
                want.append(k)
        else:
            k = ref.current()
            assert k is not None
            ref.notify(k)
            want.append(k)
    check(order == want, f"losses told in order {order} instead of {want} for durations {chosen}", key="order")
    check(executor.time == ref.time, f"time {executor.time} instead of {ref.time}", key="time")
    ch.state(order, ref.time)
    _ = func, on_ask, Violation


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    ops = []
    for batch in (False, True):
        ops.append(dict(depth=8 if deep else 7, jobs=3, durations=[1.0, 2.0], batch=batch, fail=False))
        ops.append(dict(depth=6 if deep else 5, jobs=4, durations=[1.0, 0.0, 3.0, -1.0], batch=batch, fail=False))
        ops.append(dict(depth=7 if deep else 6, jobs=2, durations=[2.0, 0.5], batch=batch, fail=True))
    mini = []
    for batch in (False, True):
        for workers in (1, 2, 3, 4):
            mini.append(dict(budget=7 if deep else 5, workers=workers, durations=[1.0, 0.0, 2.5], batch=batch))
        mini.append(dict(budget=10 if deep else 8, workers=3, durations=[1.0, 2.0], batch=batch))
    return {
        "read_twice": Scenario(read_twice, [dict(jobs=3, batch=b) for b in (False, True)]),
        "operations": Scenario(operations, ops),
        "plain": Scenario(plain, [dict(jobs=n) for n in (1, 2, 4)]),
        "minimize": Scenario(minimize, mini),
    }
