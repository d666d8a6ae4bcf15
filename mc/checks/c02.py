"""C02: interruptions of minimize at every point, and resumption (directly, or after dump and load)."""
import os
import shutil
import tempfile
import typing as tp
from pathlib import Path

import nevergrad as ng
from mc.engine import Chooser
from mc.lib import ChoiceExecutor, Clock, Job, check, vec
from mc.main import Scenario

RULE = (
    "an execution is a complete history of minimize calls until the budget is told; decisions: whether an exception strikes at each "
    "poll/result/sleep/ask/callback/constraint call (at most `faults` of them), which jobs are late, and whether the optimizer goes "
    "through dump and load before resuming. A state is the ledger (submitted, done, told, interruptions) after each event."
)
ASSUMPTIONS = [
    "jobs survive the interruption (as futures of a cluster do) and are pickled as references",
    "executor.submit itself does not fail",
]


class Interruption(Exception):
    pass


class World:
    """Everything which is outside of the optimizer and survives interruptions"""

    current: "World"

    def __init__(self, ch: Chooser, faults: int, kind: tp.Type[BaseException], postpone: int) -> None:
        self.ch = ch
        self.left = faults
        self.kind = kind
        self.executor = FaultyExecutor(self, postpone)
        self.asked: tp.List[str] = []
        self.told: tp.List[tp.Tuple[str, float]] = []
        self.interruptions = 0
        World.current = self

    def site(self, name: str) -> None:
        if self.left and self.ch.choose([False, True], f"fault:{name}"):
            self.left -= 1
            self.interruptions += 1
            raise self.kind(name)

    def snap(self, event: str) -> None:
        jobs = tuple((j.completed, j.postponed, j.reads) for j in self.executor.jobs)
        self.ch.state(event, len(self.asked), jobs, len(self.told), self.left)


def _lookup(index: int) -> Job:
    return World.current.executor.jobs[index]


class FaultyJob(Job):
    def __reduce__(self) -> tp.Any:
        return _lookup, (self.index,)


class FaultyExecutor(ChoiceExecutor):
    def __init__(self, world: World, postpone: int) -> None:
        super().__init__(world.ch, max_postpone=postpone)
        self.world = world

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> Job:
        job = FaultyJob(self, len(self.jobs), fn, args, kwargs)
        self.jobs.append(job)
        self.world.snap("submit")
        return job

    def on_poll(self, job: Job) -> None:
        self.world.site("poll")

    def on_result(self, job: Job) -> None:
        self.world.site("result")


class Recorder(ng.optimizers.base.Optimizer):
    def __init__(self, *args: tp.Any, **kwargs: tp.Any) -> None:
        super().__init__(*args, **kwargs)
        self.counter = 0

    def ask(self) -> tp.Any:
        out = super().ask()
        World.current.asked.append(out.uid)
        return out

    def _internal_ask(self) -> tp.Any:
        World.current.site("ask")
        self.counter += 1
        return [float(self.counter)] * self.dimension

    def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
        World.current.told.append((candidate.uid, loss))
        World.current.snap("told")

    def _internal_tell_not_asked(self, candidate: tp.Any, loss: float) -> None:
        check(False, "a candidate is told as not asked (told twice?)")


def loss_of(index: int) -> float:
    return float((5 * index + 2) % 7) - 0.25 * index


def objective(x: tp.Any) -> float:
    """value depends on the index of the point only"""
    return loss_of(int(x[0]))


def interrupted(
    ch: Chooser,
    budget: int,
    workers: int,
    batch: bool,
    faults: int,
    kind: str,
    postpone: int,
    constraint: bool = False,
    dump: bool = False,
    callbacks: bool = True,
) -> None:
    world = World(ch, faults, dict(error=Interruption, interrupt=KeyboardInterrupt)[kind], postpone)
    opt = Recorder(ng.p.Array(shape=(2,)), budget=budget, num_workers=workers)

    def violation(x: tp.Any) -> float:
        world.site("constraint")
        return 0.0

    kwargs: tp.Dict[str, tp.Any] = {"constraint_violation": [violation]} if constraint else {}
    out = None
    while True:
        before = world.interruptions
        if callbacks:
            opt.register_callback("tell", lambda *a: world.site("tell callback"))
            opt.register_callback("ask", lambda *a: world.site("ask callback"))
        clock = Clock(on_sleep=lambda: world.site("sleep"))
        try:
            with clock.installed():
                out = opt.minimize(objective, executor=world.executor, batch_mode=batch, **kwargs)
        except (Interruption, KeyboardInterrupt):
            check(world.interruptions == before + 1, "exception without fault")
        else:
            check(world.interruptions == before, "an exception was silently swallowed")
            break
        world.snap("interrupted")
        opt.remove_all_callbacks()
        flight = len(world.executor.jobs) - len(world.told)
        check(flight <= workers, f"{flight} evaluations in flight")
        if dump:
            folder = tempfile.mkdtemp(prefix="mc02_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
            try:
                path = Path(folder) / "opt.pkl"
                opt.dump(path)
                opt = Recorder.load(path)
            finally:
                shutil.rmtree(folder)
    check(len(world.executor.jobs) == budget, f"{len(world.executor.jobs)} submissions instead of {budget}")
    points = [vec(j.call[1][0]) for j in world.executor.jobs]
    check(len(set(points)) == budget, "a candidate is submitted twice")
    check(len(world.asked) == budget, f"{len(world.asked)} candidates asked instead of {budget}")
    expected = sorted((uid, objective(p)) for uid, p in zip(world.asked, points))
    check(sorted(world.told) == expected, f"told {len(world.told)} results instead of each of the {budget} once")
    check(opt.num_ask == budget and opt.num_tell == budget, f"num_ask={opt.num_ask}, num_tell={opt.num_tell}")
    check(opt.num_tell_not_asked == 0, "an asked candidate was lost by the interruption")
    for x, mv in opt.archive.items_as_arrays():
        check(mv.count == 1, f"the loss of {vec(x)} is counted {mv.count} times")
    check(len(opt.archive) == budget, "missing points in the archive")
    best = min(points, key=objective)
    check(out is not None and vec(out.value) == best, "the best candidate is not returned")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    one, two, dumps = [], [], []
    for batch in (False, True):
        for kind in ("error", "interrupt"):
            for constraint in (False, True):
                for workers, budget in [(1, 2), (2, 3), (2, 4), (3, 4)]:
                    one.append(
                        dict(budget=budget, workers=workers, batch=batch, faults=1, kind=kind, postpone=1, constraint=constraint)
                    )
        for workers, budget in [(1, 3), (2, 4), (3, 5)] + ([(3, 7), (4, 6)] if deep else []):
            two.append(dict(budget=budget, workers=workers, batch=batch, faults=2, kind="error", postpone=1))
            two.append(dict(budget=budget, workers=workers, batch=batch, faults=2, kind="interrupt", postpone=0, constraint=True))
        for workers, budget in [(1, 2), (2, 4), (3, 4)] + ([(3, 6)] if deep else []):
            dumps.append(dict(budget=budget, workers=workers, batch=batch, faults=2, kind="interrupt", postpone=1, dump=True))
    return {
        "one_fault": Scenario(interrupted, one),
        "two_faults": Scenario(interrupted, two, max_dev=5 if deep else 4),
        "dump_and_load": Scenario(interrupted, dumps, max_dev=4 if deep else 3),
        "many_faults": Scenario(
            interrupted,
            [dict(budget=3, workers=2, batch=b, faults=4, kind="error", postpone=0) for b in (False, True)],
            max_dev=4 if deep else 3,
        ),
    }
