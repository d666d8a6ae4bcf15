"""C01: minimize under every completion schedule."""
import contextlib
import io
import typing as tp

import nevergrad as ng
from mc.engine import Chooser
from mc.lib import ChoiceExecutor, Clock, Job, check, vec
from mc.main import Scenario

RULE = (
    "an execution is one complete run of the real minimize; decisions: at each poll of each running job, whether it is "
    "done (at most max_postpone refusals per job). A state is the abstract ledger (submitted, in flight, told, mode) after each event."
)
ASSUMPTIONS = [
    "a job which answered done() stays done; each job is refused at most max_postpone times",
    "time.sleep/time.time are virtual",
]


class Ledger(ChoiceExecutor):
    def __init__(self, ch: Chooser, opt: tp.Any, workers: int, target: int, batch: bool, postpone: int) -> None:
        super().__init__(ch, max_postpone=postpone)
        self.opt = opt
        self.workers = workers
        self.target = target  # number of evaluations to launch
        self.batch = batch
        self.asked: tp.List[tp.Any] = []
        self.told: tp.Dict[int, float] = {}
        self.batch_of: tp.List[int] = []
        self.batch_id = -1
        self.last = ""
        self.told_outside = 0

    def snapshot(self, event: str) -> None:
        flight = len(self.jobs) - len(self.told)
        done = sum(j.completed for j in self.jobs)
        self.ch.state(event, len(self.jobs), len(self.told), done, flight, tuple(j.postponed for j in self.jobs))

    def on_submit(self, job: Job) -> None:
        flight = len(self.jobs) - len(self.told)
        check(flight <= self.workers, f"{flight} evaluations in flight with {self.workers} workers")
        check(len(self.jobs) <= self.target, f"more than {self.target} evaluations launched")
        check(len(self.asked) == len(self.jobs), f"{len(self.asked)} asks for {len(self.jobs)} submissions")
        cand = self.asked[-1]
        check(
            job.call[1] == cand.args and job.call[2] == cand.kwargs,
            f"submitted arguments {job.call[1:]} are not those of the asked candidate",
        )
        if self.batch:
            if self.last != "submit":
                self.batch_id += 1
                check(
                    flight == 1, f"new evaluation launched while {flight - 1} of the previous batch are unfinished"
                )
        self.last = "submit"
        self.snapshot("submit")

    def on_poll(self, job: Job) -> None:
        flight = len(self.jobs) - len(self.told)
        if self.last in ("submit", "told") and not any(j.completed and j.index not in self.told for j in self.jobs):
            # start of a polling round: workers must be busy
            full = min(self.workers, self.target - len(self.told))
            if not self.batch:
                check(flight == full, f"{flight} evaluations in flight instead of {full}")
            elif self.last == "submit":
                check(flight == full, f"batch of {flight} evaluations instead of {full}")
        self.last = "poll"

    def on_result(self, job: Job) -> None:
        check(job.completed, f"result of job {job.index} read before it is done")

    def on_tell(self, opt: tp.Any, candidate: tp.Any, loss: float) -> None:
        match = [k for k, c in enumerate(self.asked) if c is candidate]
        check(match, "a candidate which was not submitted is told")
        k = match[0]
        check(k not in self.told, f"evaluation {k} is told twice")
        job = self.jobs[k]
        check(job.completed, f"evaluation {k} is told before completion")
        check(loss == self.expected(job), f"evaluation {k} gets loss {loss} instead of {self.expected(job)}")
        self.told[k] = loss
        self.last = "told"
        self.snapshot("told")

    def expected(self, job: Job) -> float:
        return objective_value(job.index)


def objective_value(index: int) -> float:
    return float((7 * index + 3) % 11) - 0.125 * index  # all different, minimum somewhere in the middle


class Unique(ng.optimizers.base.Optimizer):
    """Minimal optimizer with distinct points, recording what reaches it"""

    def __init__(self, *args: tp.Any, **kwargs: tp.Any) -> None:
        super().__init__(*args, **kwargs)
        self.seen: tp.List[tp.Any] = []
        self.counter = 0

    def _internal_ask(self) -> tp.Any:
        self.counter += 1
        return [float(self.counter)] * self.dimension

    def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
        self.seen.append((candidate, loss))


def make(name: str, budget: int, workers: int) -> tp.Any:
    if name == "Instr":
        param: tp.Any = ng.p.Instrumentation(ng.p.Array(shape=(1,)), y=ng.p.Scalar())
        return Unique(param, budget=budget, num_workers=workers)
    param = ng.p.Array(shape=(2,))
    if name == "Unique":
        return Unique(param, budget=budget, num_workers=workers)
    return ng.optimizers.registry[name](param, budget=budget, num_workers=workers)


def schedule(
    ch: Chooser,
    optimizer: str,
    budget: int,
    workers: int,
    batch: bool,
    pre: tp.Tuple[int, int] = (0, 0),
    postpone: int = 2,
    verbosity: int = 0,
    constraint: bool = False,
) -> None:
    opt = make(optimizer, budget, workers)
    opt.parametrization.random_state.seed(12)
    pre_told, pre_pending = pre
    best_pre = []
    for k in range(pre_told + pre_pending):
        cand = opt.ask()
        if k < pre_told:
            opt.tell(cand, 50.0 + k)
            best_pre.append(cand)
    target = max(0, budget - pre_told - pre_pending)
    ex = Ledger(ch, opt, workers, target, batch, postpone)
    real_ask = opt.ask

    def ask() -> tp.Any:
        out = real_ask()
        ex.asked.append(out)
        return out

    opt.ask = ask
    opt.register_callback("tell", ex.on_tell)
    calls: tp.List[int] = []

    def objective(*args: tp.Any, **kwargs: tp.Any) -> float:
        # the running job is the one whose result is being computed
        running = [j for j in ex.jobs if j.evaluated and j.index not in calls]
        check(len(running) == 1, "evaluation outside of a job")
        job = running[0]
        check(args is not None and job.call[1] == args and job.call[2] == kwargs, "arguments were changed")
        calls.append(job.index)
        return objective_value(job.index)

    kwargs: tp.Dict[str, tp.Any] = {}
    if constraint:
        kwargs["constraint_violation"] = [lambda x: 0.0]
    with Clock().installed(), contextlib.redirect_stdout(io.StringIO()):
        out = opt.minimize(objective, executor=ex, batch_mode=batch, verbosity=verbosity, **kwargs)
    check(len(ex.jobs) == target, f"{len(ex.jobs)} evaluations launched instead of {target}")
    check(sorted(calls) == list(range(target)), f"evaluations {sorted(calls)} instead of each of {target} once")
    check(len(ex.told) == target, f"{len(ex.told)} evaluations told instead of {target}")
    check(opt.num_ask == pre_told + pre_pending + target, f"num_ask={opt.num_ask}")
    check(opt.num_tell == pre_told + target, f"num_tell={opt.num_tell}")
    if isinstance(opt, Unique):
        got = [(id(c), v) for c, v in opt.seen[pre_told:]]
        check(
            sorted(got) == sorted((id(ex.asked[k]), v) for k, v in ex.told.items()),
            "the algorithm did not receive each candidate with its loss exactly once",
        )
        if ex.told:
            best = min(ex.told, key=lambda k: ex.told[k])
            check(out is ex.asked[best] or out.uid == ex.asked[best].uid, "the returned candidate is not the best one")
        elif best_pre:
            check(out.uid == best_pre[0].uid, "the returned candidate is not the best one")
    if target + pre_told:
        rec = opt.provide_recommendation()
        check(
            vec(rec.get_standardized_data(reference=opt.parametrization))
            == vec(out.get_standardized_data(reference=opt.parametrization)),
            "minimize does not return the recommendation",
        )
    # running again changes nothing
    with Clock().installed():
        opt.minimize(objective, executor=ex, batch_mode=batch)
    check(len(ex.jobs) == target and opt.num_tell == pre_told + target, "budget exceeded by a second call")


def sequential(ch: Chooser, workers: int, batch: bool, objectives: int) -> None:
    """Default executor: every evaluation immediately follows"""
    budget = ch.choose([1, 2, 3, 4, 5, 6, 7], "budget")
    pre = ch.choose([0, 1, 2], "pre")
    opt = make("Unique", budget, workers)
    for _ in range(min(pre, budget)):
        opt.ask()
    calls: tp.List[tp.Any] = []
    events: tp.List[tp.Any] = []
    opt.register_callback("tell", lambda o, c, v: events.append(("tell", vec(c.value))))

    def objective(x: tp.Any) -> tp.Any:
        calls.append(vec(x))
        events.append(("eval", vec(x)))
        ch.state(len(calls), len(events))
        val = objective_value(len(calls))
        return val if objectives == 1 else [val, -val]

    with Clock().installed():
        out = opt.minimize(objective, batch_mode=batch)
    check(len(calls) == max(0, budget - pre), f"{len(calls)} evaluations with a budget of {budget} and {pre} asked")
    check(len(set(calls)) == len(calls), "a candidate was evaluated twice")
    for k in range(0, len(events), 2):
        check(
            events[k][0] == "eval" and events[k + 1] == ("tell", events[k][1]),
            "an evaluation is not followed by the corresponding tell",
        )
    if objectives == 1 and calls:
        best = min(range(len(calls)), key=lambda k: objective_value(k + 1))
        check(vec(out.value) == calls[best], "the best candidate is not returned")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    full = []
    for batch in (False, True):
        for workers, budget in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 4), (3, 5), (4, 4)]:
            full.append(dict(optimizer="Unique", budget=budget, workers=workers, batch=batch))
        for workers, budget in [(2, 6), (3, 7), (4, 7), (5, 6)] + ([(3, 9), (4, 8), (2, 9)] if deep else []):
            full.append(dict(optimizer="Unique", budget=budget, workers=workers, batch=batch, postpone=1))
        for pre in [(1, 0), (2, 1), (0, 2), (0, 5), (5, 0), (3, 2)]:
            full.append(dict(optimizer="Unique", budget=5, workers=2, batch=batch, pre=pre))
        for verbosity in (1, 2):
            full.append(dict(optimizer="Instr", budget=4, workers=2, batch=batch, verbosity=verbosity))
        full.append(dict(optimizer="Instr", budget=4, workers=3, batch=batch, constraint=True))
    real = []
    names = ["OnePlusOne", "DE", "PSO", "CMA", "NGOpt", "ES", "RandomSearch", "ScrHammersleySearch", "TBPSA", "ParaPortfolio"]
    for name in names:
        for batch in (False, True):
            real.append(dict(optimizer=name, budget=6, workers=3, batch=batch, postpone=1))
    limited = []
    for batch in (False, True):
        for workers, budget in [(3, 12), (5, 12), (8, 10)] + ([(4, 30), (7, 25)] if deep else []):
            limited.append(dict(optimizer="Unique", budget=budget, workers=workers, batch=batch, postpone=2))
    return {
        "schedules": Scenario(schedule, full),
        "schedules_real_optimizers": Scenario(schedule, real, max_dev=None if deep else 4),
        "schedules_long_bounded_delays": Scenario(schedule, limited, max_dev=4 if deep else 3),
        "sequential": Scenario(
            sequential,
            [dict(workers=w, batch=b, objectives=m) for w in (1, 2, 3) for b in (False, True) for m in (1, 2)],
        ),
    }
