"""C03: early stopping criteria and time limit, on every loss history / clock reading / completion schedule."""
import typing as tp

import nevergrad as ng
from mc.engine import Chooser
from mc.lib import ChoiceExecutor, Clock, check, vec
from mc.main import Scenario

RULE = (
    "an execution is one run of the real minimize with a stopping callback or a max_time; decisions: the loss (or the virtual duration) of each "
    "evaluation, and in parallel runs which poll each job completes at. A state is (losses so far, asks, tells)."
)
ASSUMPTIONS = ["virtual clock", "evaluations are the only consumers of time besides sleeps"]


class Plain(ng.optimizers.base.Optimizer):
    """Distinct points, default recommendation"""

    def _internal_ask(self) -> tp.Any:
        return [float(self.num_ask)] * self.dimension


def make(name: str, budget: int, workers: int = 1) -> tp.Any:
    param = ng.p.Array(shape=(2,))
    if name == "Plain":
        opt: tp.Any = Plain(param, budget=budget, num_workers=workers)
    else:
        opt = ng.optimizers.registry[name](param, budget=budget, num_workers=workers)
    param.random_state.seed(12)
    return opt


def no_improvement(ch: Chooser, window: int, budget: int, losses: tp.List[float], optimizer: str) -> None:
    """stops at the first ask for which more than `window` consecutive asks brought no better loss"""
    opt = make(optimizer, budget)
    opt.register_callback("ask", ng.callbacks.EarlyStopping.no_improvement_stopper(window))
    history: tp.List[float] = []
    values: tp.List[tp.Any] = []

    def objective(x: tp.Any) -> float:
        loss = ch.choose(losses, "loss")
        history.append(loss)
        values.append(vec(x))
        ch.state(tuple(history))
        return float(loss)

    with Clock().installed():
        out = opt.minimize(objective)
    # reference: number of evaluations allowed by the definition
    expected = budget
    reference: tp.Optional[float] = None
    count = 0
    for asked in range(budget):  # before each ask
        if not asked:
            continue
        if asked > len(history):
            check(False, f"stopped after {len(history)} evaluations {history}: no {window + 1} asks without improvement")
        best = min(history[:asked])
        if reference is None:
            reference = best
        elif best < reference:
            reference, count = best, 0
        else:
            count += 1
        if count > window:
            expected = asked
            break
    check(
        len(history) == expected,
        f"stopped after {len(history)} evaluations instead of {expected} with losses {history} and window {window}",
    )
    check(opt.num_tell == len(history), f"{opt.num_tell} tells for {len(history)} evaluations")
    check(out.loss == min(history), f"returned a candidate with loss {out.loss} with losses {history}")
    check(vec(out.value) in [v for v, f in zip(values, history) if f == min(history)], "not the best candidate")


def criterion(ch: Chooser, budget: int, workers: int, batch: bool, postpone: int, kind: str) -> None:
    """Parallel run: no ask once the criterion triggered, pending results are kept"""
    opt = make("Plain", budget, workers)
    threshold = 1.5
    limit = ch.choose(list(range(budget + 1)), "limit", free=True)
    triggered: tp.List[int] = []
    checks: tp.List[int] = []

    def stop(o: tp.Any) -> bool:
        checks.append(o.num_ask)
        if kind == "num_ask":
            res = o.num_ask >= limit
        elif kind == "num_tell":
            res = o.num_tell >= limit
        else:
            res = o.num_tell > 0 and o.recommend().loss < threshold
        if res:
            triggered.append(o.num_ask)
        return res

    opt.register_callback("ask", ng.callbacks.EarlyStopping(stop))
    ex = ChoiceExecutor(ch, max_postpone=postpone)
    told: tp.List[float] = []
    opt.register_callback("tell", lambda o, c, loss: told.append(loss))
    losses = [2.0 + ((3 * k) % 5) for k in range(budget)]
    if limit < budget:
        losses[limit] = 1.0
    count = [0]

    def on_submit(job: tp.Any) -> None:
        check(not triggered, "an evaluation is launched after the stopping criterion triggered")
        ch.state("submit", len(ex.jobs), len(told))

    ex.on_submit = on_submit  # type: ignore

    def objective(x: tp.Any) -> float:
        count[0] += 1
        return losses[int(x[0])]

    with Clock().installed():
        out = opt.minimize(objective, executor=ex, batch_mode=batch)
    num = len(ex.jobs)
    check(len(triggered) <= 1, f"the criterion was evaluated again after it triggered: {triggered}")
    if not triggered:
        check(num == budget, f"{num} evaluations instead of {budget} although nothing triggered")
    else:
        check(num == triggered[0], f"{num} evaluations, stopped at {triggered[0]}")
    if kind == "num_ask":
        check(num == limit, f"{num} evaluations instead of {limit}")
    check(count[0] == num, f"{count[0]} evaluations run for {num} launched")
    check(sorted(told) == sorted(losses[:num]), f"told losses {told} instead of {losses[:num]}")
    check(opt.num_ask == num and opt.num_tell == num, f"num_ask={opt.num_ask} num_tell={opt.num_tell} for {num}")
    ch.state("end", num, bool(triggered))
    if num:
        check(out.loss == min(told), "the returned candidate is not the best told one")


def timer(ch: Chooser, budget: int, duration: float, optimizer: str, wait: float) -> None:
    """EarlyStopping.timer: first ask strictly later than the duration, counted from the first ask"""
    opt = make(optimizer, budget)
    clock = Clock()
    clock.tick = 0.0
    asks: tp.List[float] = []
    num = [0]
    with clock.installed():
        stopper = ng.callbacks.EarlyStopping.timer(duration)
        clock.now += wait  # time between the creation of the callback and the first ask is not counted
        opt.register_callback("ask", lambda o: asks.append(clock.now))
        opt.register_callback("ask", stopper)

        def objective(x: tp.Any) -> float:
            num[0] += 1
            clock.now += ch.choose([1.0, 0.0, 2.0], "duration")
            ch.state(clock.now, num[0])
            return 1.0

        opt.minimize(objective)
    late = [k for k, t in enumerate(asks) if t > asks[0] + duration]
    if late:
        check(late[0] == len(asks) - 1, f"asks went on after {duration}s: {[t - asks[0] for t in asks]}")
        check(num[0] == late[0], f"{num[0]} evaluations instead of {late[0]}")
    else:
        check(num[0] == budget, f"stopped early after {[t - asks[0] for t in asks]} with limit {duration}")
    check(opt.num_tell == num[0], "an evaluation is not told")


def max_time(ch: Chooser, budget: int, workers: int, limit: float, resume: bool) -> None:
    """max_time: one more iteration at most, and the rest of the budget stays available"""
    opt = make("Plain", budget, workers)
    clock = Clock()
    clock.tick = 0.0
    starts: tp.List[float] = []
    points: tp.List[tp.Any] = []

    def objective(x: tp.Any) -> float:
        starts.append(clock.now - t0)
        points.append(vec(x))
        clock.now += ch.choose([1.0, 0.0, 3.0], "duration")
        ch.state(clock.now, len(starts))
        return float(x[0])

    with clock.installed():
        t0 = clock.now
        opt.minimize(objective, max_time=limit)
        end = clock.now - t0
        check(opt.num_tell == len(points), "an evaluation is not told")
        if workers == 1:
            check(all(s < limit for s in starts), f"evaluations start at {starts} with a limit of {limit}")
        if len(points) < budget:
            check(end >= limit, f"stopped after {len(points)} evaluations, {end}s while the limit is {limit}s")
        check(opt.num_ask - opt.num_tell <= workers, "too many pending evaluations")
        num = len(points)
        if resume:
            t0 = clock.now
            out = opt.minimize(objective, max_time=None)
            check(len(points) == budget, f"{len(points)} evaluations overall instead of {budget} ({num} before the limit)")
            check(len(set(points)) == budget, "a candidate is evaluated twice after resuming")
            check(opt.num_tell == budget and opt.num_ask == budget, "wrong counters after resuming")
            check(vec(out.value) == min(points), "best candidate lost")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    return {
        "no_improvement": Scenario(
            no_improvement,
            [
                dict(window=w, budget=9 if deep else 7, losses=losses, optimizer="Plain")
                for w in (0, 1, 2, 3)
                for losses in ([1.0, 0.0, 2.0], [0.0, -1.0, 1.0])
            ]
            + [dict(window=w, budget=6, losses=[1.0, 0.0, 2.0], optimizer=name) for w in (0, 2) for name in ("RandomSearch", "DE", "PSO")],
        ),
        "criterion": Scenario(
            criterion,
            [
                dict(budget=b, workers=w, batch=batch, postpone=1, kind=kind)
                for b, w in [(3, 1), (4, 2), (6, 3)] + ([(8, 4), (8, 2)] if deep else [])
                for batch in (False, True)
                for kind in ("num_ask", "num_tell", "loss")
            ],
        ),
        "timer": Scenario(
            timer,
            [
                dict(budget=7 if deep else 6, duration=d, optimizer="Plain", wait=w)
                for d in (0.5, 1.0, 2.5, 4.0, 100.0)
                for w in (0.0, 50.0)
            ],
        ),
        "max_time": Scenario(
            max_time,
            [
                dict(budget=6 if deep else 5, workers=w, limit=t, resume=r)
                for w in (1, 2, 3)
                for t in (0.0, 1.0, 2.5, 4.0, 100.0)
                for r in (False, True)
            ],
        ),
    }
