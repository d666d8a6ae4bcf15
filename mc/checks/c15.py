"""C15: batch recast optimizers return each loss to the right point of the batch."""
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.optimization import recaster, recastlib
from mc.engine import Chooser, Violation
from mc.lib import check, close, snap
from mc.main import Scenario
from mc.sched import Deadlock, Sched

RULE = (
    "an execution is an interleaving of asks (including those which must be refused) and tells (of any pending candidate) on a real batch recast optimizer "
    "whose routine requests batches of the given sizes and then returns, fails or goes on, with its real background thread under a controlled scheduler. "
    "A state is the set of asked and told points and the arrays received by the routine."
)
ASSUMPTIONS = ["queues are atomic", "refused tells (candidates which were not asked) raise an error, as documented"]


class Routine:
    def __init__(self, kind: str, sizes: tp.Sequence[int], record: tp.List[tp.Any]) -> None:
        self.kind, self.sizes, self.record = kind, sizes, record

    def __call__(self, func: tp.Callable[[tp.Any], tp.Any]) -> tp.Any:
        num = 0
        for size in self.sizes:
            batch = np.array([[0.1 * (num + k + 1), -0.1 * (num + k + 1)] for k in range(size)])
            num += size
            self.record.append(func(batch))
        if self.kind == "raise":
            raise ValueError("routine failed")
        return np.array([0.9, 0.8])


class Batch(recaster.BatchRecastOptimizer):
    kind = "return"
    sizes: tp.Sequence[int] = ()

    def get_optimization_function(self) -> tp.Any:
        self.records: tp.List[tp.Any] = []
        return Routine(self.kind, self.sizes, self.records)


def batches(ch: Chooser, kind: str, sizes: tp.List[int], after: int, foreign: bool, depth: int) -> None:
    total = sum(sizes)
    starts = np.cumsum([0] + list(sizes))
    with Sched(ch).installed() as sched:
        try:
            opt = Batch(2, budget=100, num_workers=max(sizes))
            opt.kind, opt.sizes = kind, sizes
            pending: tp.Dict[int, tp.Any] = {}
            asked: tp.Set[int] = set()
            told: tp.Dict[int, float] = {}
            batch = 0
            extra: tp.List[tp.Any] = []
            uids: tp.Set[str] = set()
            hist: tp.List[tp.Any] = []
            counts = [0, 0]
            for _ in range(depth):
                current = set(range(starts[batch], starts[batch + 1])) if batch < len(sizes) else set()
                left = current - asked
                ops = ["ask"] + [f"tell {k}" for k in sorted(pending)] + (["foreign"] if foreign and counts[0] else [])
                if batch == len(sizes) and len(extra) >= after:
                    break
                op = ch.choose(ops, "operation", free=True)
                check(opt.num_ask == counts[0] and opt.num_tell == counts[1], f"counters {opt.num_ask, opt.num_tell} instead of {counts}")
                if op == "ask":
                    refused = error = None
                    check(opt.can_ask() == bool(left or not current), f"can_ask is {opt.can_ask()} with {len(left)} points left and {len(pending)} pending")
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        try:
                            cand = opt.ask()
                        except recaster.TooManyAskError as e:
                            refused = e
                        except (RuntimeError, ValueError) as e:
                            error = str(e)
                    if current and not left:
                        check(refused is not None, f"ask beyond an unfinished batch was not refused: {error}")
                        hist.append("refused")
                        continue
                    check(refused is None, "ask was refused although the batch is finished or has points left")
                    if not current:
                        if kind == "raise":
                            check(error is not None and "routine failed" in error, f"the failure of the routine is not reported, but {error}")
                            extra.append(None)
                            continue
                        check(error is None, f"ask after the end failed: {error}")
                        check(np.all(np.isfinite(cand.value)), f"invalid point after the end {cand.value}")
                        counts[0] += 1
                        opt.tell(cand, 50.0)
                        counts[1] += 1
                        extra.append(cand)
                        continue
                    check(error is None, f"ask failed: {error}")
                    counts[0] += 1
                    data = cand.get_standardized_data(reference=opt.parametrization)
                    match = [k for k in left if close(data, [0.1 * (k + 1), -0.1 * (k + 1)])]
                    check(len(match) == 1, f"asked {data}, which is not a point left in the batch {sorted(left)}")
                    check(cand.uid not in uids, "a candidate was asked twice")
                    uids.add(cand.uid)
                    asked.add(match[0])
                    pending[match[0]] = cand
                    hist.append(("ask", match[0]))
                elif op == "foreign":
                    other = opt.parametrization.spawn_child(new_value=np.array([3.0, 3.0]))
                    before = [len(r) for r in opt.records]
                    try:
                        opt.tell(other, -5.0)
                        counts[1] += 1
                        check(False, "a candidate which was not asked was accepted")
                    except ng.errors.TellNotAskedNotSupportedError:
                        counts[1] = opt.num_tell
                    check(before == [len(r) for r in opt.records], "a refused tell reached the routine")
                    hist.append("foreign")
                else:
                    k = int(op.split()[1])
                    opt.tell(pending.pop(k), 100.0 + k)
                    counts[1] += 1
                    told[k] = 100.0 + k
                    hist.append(("tell", k))
                    if current <= set(told):
                        batch += 1
                ch.state(tuple(hist), tuple(map(snap, opt.records)), sched.describe())
            left_ = sched.drain()
            records = opt.records if counts[0] or extra else []
            check(len(records) == batch, f"the routine received {len(records)} arrays after {batch} complete batches")
            for b, rec in enumerate(records):
                ref = [100.0 + k for k in range(starts[b], starts[b + 1])]
                check(close(rec, ref), f"the routine received {rec} for batch {b} instead of {ref}")
            rec = cand = opt = None  # type: ignore
            pending.clear()
            extra.clear()
            left_ = sched.drain()
            check(not left_, f"the optimizer is deleted but its thread never ends: {left_}")
        except Deadlock as e:
            raise Violation(f"blocked: {e}", key="deadlock")


def pymoo(ch: Chooser, sizes: tp.List[int], objectives: int, dummy: int, sequential: bool = False) -> None:
    """real wrapper of pymoo (whose algorithm is replaced by one which requests the given batches): each row gets its own losses"""
    import pymoo.optimize as po

    saved = po.minimize
    records: tp.List[tp.Any] = []

    def fake(problem: tp.Any, algorithm: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> None:
        num = 0
        for size in sizes:
            X = np.array([[0.1 * (num + k + 1), -0.1] for k in range(size)])
            num += size
            out: tp.Dict[str, tp.Any] = {}
            problem._evaluate(X[0] if sequential else X, out)
            records.append((X, np.array(out["F"], dtype=float)))

    def losses(x: np.ndarray) -> tp.Any:
        out = [float(np.sum((x - 2 * k) ** 2)) for k in range(objectives)]
        return out[0] if objectives == 1 else out

    po.minimize = fake
    try:
        with Sched(ch).installed() as sched:
            cls: tp.Any = recastlib.Pymoo if sequential else recastlib.PymooBatch
            opt = cls(algorithm="nsga2")(2, budget=100, num_workers=1 if sequential else max(sizes))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for _ in range(dummy):  # asks before the number of objectives is known
                    cand = opt.ask()
                    opt.tell(cand, losses(cand.value))
            if not dummy:
                opt.num_objectives = objectives
            for size in sizes:
                pending: tp.List[tp.Any] = []
                count = 0
                while count < size or pending:
                    ops = (["ask"] if count < size else []) + list(range(len(pending)))
                    op = ch.choose(ops, "operation", free=True)
                    if op == "ask":
                        pending.append(opt.ask())
                        count += 1
                    else:
                        c = pending.pop(op)
                        opt.tell(c, losses(c.value))
            left = sched.drain()
            check(len(records) == len(sizes), f"{len(records)} batches were evaluated instead of {len(sizes)} ({left})")
            for X, F in records:
                ref = np.array([np.atleast_1d(losses(np.tan(x))) for x in X])
                check(close(F.ravel(), ref.ravel()), f"the losses received for {X.tolist()} are {F.tolist()} instead of {ref.tolist()}")
            ch.state(sizes, objectives, [snap(F) for _, F in records])
            opt = c = cand = None
            check(not sched.drain(), "the thread never ends")
    except Deadlock as e:
        raise Violation(f"blocked: {e}", key="deadlock")
    finally:
        po.minimize = saved


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    cfgs = []
    for sizes in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2]) + (([4], [3, 1], [1, 3], [3, 2]) if deep else ()):
        for kind in ("return", "raise"):
            cfgs.append(dict(kind=kind, sizes=list(sizes), after=2, foreign=False, depth=2 * sum(sizes) + 3))
    cfgs += [dict(kind="return", sizes=[2, 1], after=1, foreign=True, depth=8 if deep else 7), dict(kind="return", sizes=[3], after=1, foreign=True, depth=8 if deep else 7)]
    sched = [dict(c, foreign=False, depth=2 * sum(c["sizes"]) + 2) for c in cfgs if sum(c["sizes"]) <= (3 if deep else 2) and not c["foreign"]]
    pm = [dict(sizes=z, objectives=k, dummy=d) for z in ([1], [2], [3], [2, 2]) for k in (1, 2) for d in (0, 1)]
    pm += [dict(sizes=[1] * n, objectives=k, dummy=d, sequential=True) for n in (1, 3) for k in (1, 2) for d in (0, 1)]
    return {
        "orders": Scenario(batches, cfgs, max_dev=0),
        "schedules": Scenario(batches, sched, max_dev=2 if deep else 1),
        "pymoo": Scenario(pymoo, pm, max_dev=0),
    }
