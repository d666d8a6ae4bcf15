"""C14: recast optimizers follow the hand-over protocol under every thread schedule."""
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.optimization import recaster
from mc import optim
from mc.engine import REAL_TIME, Chooser, Violation
from mc.lib import check, close, snap
from mc.main import REPO, Scenario
from mc.sched import Deadlock, Sched

RULE = (
    "an execution runs the real recast optimizer with its real background thread under a controlled scheduler: at each operation on the queues and on "
    "thread liveness (including the window between the last action of a thread and its end) the explorer picks which thread goes on, up to a preemption "
    "bound; the routine returns, fails or loops after n points, and the user stops, goes on or reloads the optimizer at every point. A state is the "
    "sequence of asked points and received losses with the positions of the threads."
)
ASSUMPTIONS = [
    "queues and events are atomic; threads only interact through them, through liveness and through attributes read between these operations",
    "sequential optimizers are used as documented: each ask is followed by a tell",
]


def point(k: int) -> np.ndarray:
    return np.array([0.1 * (k + 1), -0.2 * (k + 1)])


OUTPUT = np.array([0.9, 0.8])


class Routine:
    """The optimization procedure: requests points in order and records the losses"""

    def __init__(self, kind: str, num: int, record: tp.List[tp.Any]) -> None:
        self.kind, self.num, self.record = kind, num, record

    def __call__(self, func: tp.Callable[[tp.Any], float]) -> tp.Any:
        k = 0
        while self.kind == "loop" or k < self.num:
            self.record.append(func(point(k)))
            k += 1
        if self.kind == "raise":
            raise ValueError("routine failed")
        return None if self.kind == "none" else OUTPUT.copy()


class Recast(recaster.SequentialRecastOptimizer):
    def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
        super().__init__(parametrization, budget, num_workers=num_workers)
        self.kind, self.num = "return", 1
        self.records: tp.List[tp.Any] = []

    def get_optimization_function(self) -> tp.Any:
        self.records = []
        return Routine(self.kind, self.num, self.records)


def reports(call: tp.Callable[[], tp.Any]) -> tp.Tuple[tp.Any, tp.Optional[str]]:
    try:
        return call(), None
    except (RuntimeError, ValueError) as e:
        return None, f"{type(e).__name__}: {e}"


def protocol(ch: Chooser, kind: str, num: int, rounds: int, reload: bool = False, recommend: bool = True) -> None:
    stop = ch.choose(range(2 * rounds, -1, -1), "operations before it is abandoned", free=True)
    where = ch.choose(range(stop + 1), "reloaded before operation", free=True) if reload else None
    keep = ch.choose([False, True], "original kept", free=True) if reload else False
    losses = [10.0 + k for k in range(rounds)]
    with Sched(ch).installed() as sched:
        try:
            opt = Recast(2, budget=rounds)
            opt.kind, opt.num = kind, num
            if reload:
                opt.enable_pickling()
            kept: tp.List[tp.Any] = []
            cand: tp.Any = None
            asked: tp.List[tp.Any] = []
            told = 0
            ended = failed = False
            for step in range(stop + 1):
                if step == where:
                    data = pickle.dumps((opt, cand))
                    if keep:
                        kept.append(opt)
                    del opt
                    opt, cand = pickle.loads(data)
                    ch.note("reloaded")
                if step == stop:
                    break
                if step % 2 == 0:
                    k = len(asked)
                    cand = None
                    with warnings.catch_warnings(record=True) as caught:
                        warnings.simplefilter("always")
                        cand, error = reports(opt.ask)
                    if kind == "loop" or k < num:
                        check(error is None, f"ask {k} failed: {error}")
                        data_ = cand.get_standardized_data(reference=opt.parametrization)
                        check(close(data_, point(k)), f"ask {k}: {data_} although the routine requested {point(k)}")
                        asked.append(k)
                    elif kind == "raise":
                        check(error is not None and "routine failed" in error, f"the failure of the routine is not reported, but {error} and {cand}")
                        failed = True
                    else:
                        check(error is None, f"ask after the end failed: {error}")
                        check(cand.value.shape == (2,) and np.all(np.isfinite(cand.value)), f"invalid point {cand.value} after the end")
                        check(any(issubclass(w.category, ng.errors.FinishedUnderlyingOptimizerWarning) for w in caught), "no warning that the routine ended")
                        ended = True
                        asked.append(k)
                elif cand is not None:
                    _, error = reports(lambda: opt.tell(cand, losses[len(asked) - 1]))
                    check(error is None, f"tell failed: {error}")
                    told += 1
                if recommend and step % 2 and told:
                    rec, error = reports(opt.recommend)
                    if kind == "raise":
                        check(error is None or "routine failed" in error, f"recommend failed: {error}")
                    else:
                        check(error is None, f"recommend failed: {error}")
                    if error is None:
                        best = close(rec.value, point(0)) or num == 0 and np.all(np.isfinite(rec.value))
                        over = kind == "return" and close(rec.value, OUTPUT)
                        if kind == "return" and ended:
                            check(over, f"recommends {rec.value} instead of the output of the routine")
                        else:
                            check(best or (over and told >= num), f"recommends {rec.value}")
                ch.state(tuple(asked), told, tuple(opt.records), ended, failed, sched.describe())
            expected = [float(10 + k) for k in range(min(told, num if kind != "loop" else told))]
            records = opt.records
            left = sched.drain()
            check([float(r) for r in records] == expected, f"the routine received {records} instead of {expected}")
            cand = None
            opt = None  # type: ignore
            kept.clear()
            left = sched.drain()
            check(not left, f"the optimizer is deleted but its thread never ends: {left}")
            ch.state(tuple(asked), told, sched.describe())
        except Deadlock as e:
            raise Violation(f"blocked: {e}", key="deadlock")


def _real_run(ch: Chooser, name: str, rounds: int, flat: bool, workers: int) -> tp.Tuple[tp.Any, ...]:
    out: tp.List[tp.Any] = []
    with Sched(ch).installed() as sched:
        try:
            opt = ng.optimizers.registry[name](2, budget=rounds, num_workers=workers)
            opt.parametrization.random_state.seed(12)
            for k in range(rounds):
                cand = opt.ask()
                out.append(snap(cand.value))
                opt.tell(cand, 1.0 if flat else float(np.sum((cand.value - 0.4) ** 2)))
            out.append(snap(opt.recommend().value))
            cand = None
            opt = None
            left = sched.drain()
            check(not left, f"{name}: the optimizer is deleted but its thread never ends: {left}")
        except Deadlock as e:
            raise Violation(f"{name}: blocked: {e}", key="deadlock")
    return tuple(out)


def real(ch: Chooser, name: str, rounds: int, flat: bool = False) -> None:
    """asked points do not depend on the schedule"""
    ref: tp.List[tp.Any] = []
    _real_reference(name, rounds, flat, ref)
    out = _real_run(ch, name, rounds, flat, 1)
    check(out == ref[0], f"{name}: the asked points depend on the schedule of the threads: {out} instead of {ref[0]}")
    ch.state(name, out)


_REFS: tp.Dict[tp.Any, tp.Any] = {}


def _real_reference(name: str, rounds: int, flat: bool, out: tp.List[tp.Any]) -> None:
    key = (name, rounds, flat)
    if key not in _REFS:
        _REFS[key] = _real_run(Chooser(), name, rounds, flat, 1)
    out.append(_REFS[key])


def siblings(ch: Chooser, name: str, rounds: int) -> None:
    """two live instances do not interfere (free running threads, in a child process)"""
    def asks(num: int) -> tp.List[tp.Any]:
        opts = []
        for k in range(num):
            opt = ng.optimizers.registry[name](2, budget=3 * rounds)
            opt.parametrization.random_state.seed(12)
            opts.append(opt)
        seqs: tp.List[tp.Any] = [[] for _ in opts]
        for k in range(rounds):
            cands = [o.ask() for o in opts]
            for s, o, c in zip(seqs, opts, cands):
                s.append(snap(c.value))
                o.tell(c, float(np.sum((c.value - 0.4) ** 2)))
        return seqs

    kind, out = in_child(lambda: (asks(1), asks(2)), 15)
    check(kind != "timeout", f"{name}: two live instances block each other", key=name)
    check(kind == "ok", f"{name}: two live instances fail: {out}", key=name)
    ch.state(name, out)


def in_child(func: tp.Callable[[], tp.Any], timeout: float) -> tp.Tuple[str, tp.Any]:
    """Runs in a child process, since locks can remain taken"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                out = ("ok", repr(func())[:2000])
            except Exception as e:  # pylint: disable=broad-except
                out = ("failed", f"{type(e).__name__}: {e}"[:500])
            os.write(w, json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        data = b""
        end = REAL_TIME() + timeout
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - REAL_TIME()))
            if not ready:
                return ("timeout", None)
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        return tuple(json.loads(data)) if data else ("failed", "crash")  # type: ignore
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


SCRIPT = """
import sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
import numpy as np
import nevergrad as ng
opt = ng.optimizers.registry[sys.argv[2]](2, budget=200)
for k in range(int(sys.argv[3])):
    if k % 2 == 0:
        cand = opt.ask()
    else:
        opt.tell(cand, float(np.sum(cand.value ** 2)))
print("finished", flush=True)
if sys.argv[4] == "raise":
    raise SystemExit(3)
"""


def exiting(ch: Chooser, name: str, ops: tp.List[int]) -> None:
    """a program with a running optimizer exits"""
    num = ch.choose(ops, "operations before the end of the program")
    how = ch.choose(["end", "raise"], "end of the program")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        proc = subprocess.run(
            [sys.executable, "-c", SCRIPT, str(REPO), name, str(num), how], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, check=False
        )
    except subprocess.TimeoutExpired as e:
        check(b"finished" not in (e.stdout or b""), f"{name}: the program never exits after {num} operations")
        raise RuntimeError("harness error: program too slow")
    check(proc.returncode == (3 if how == "raise" else 0), f"{name}: exit code {proc.returncode}: {proc.stderr[-300:]!r}")
    ch.state(name, num, how)


REAL = ["NelderMead", "Powell", "RPowell", "SQP", "RSQP", "SLSQP", "Cobyla", "RCobyla", "NLOPT_LN_SBPLX", "NLOPT_GN_DIRECT", "CmaFmin2", "BFGS", "LBFGSB", "HyperOpt"]


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    reg = ng.optimizers.registry
    proto = []
    for kind in ("return", "raise", "none"):
        for num in (0, 1, 2):
            proto.append(dict(kind=kind, num=num, rounds=num + 2))
    proto.append(dict(kind="loop", num=0, rounds=3))
    rel = [dict(kind=k, num=n, rounds=n + 2, reload=True, recommend=False) for k, n in (("return", 0), ("return", 1), ("none", 0), ("none", 1), ("raise", 0))]
    rel += [dict(kind="loop", num=0, rounds=2, reload=True, recommend=False)]
    if deep:
        proto += [dict(kind=k, num=3, rounds=5) for k in ("return", "raise", "none")]
        rel += [dict(kind=k, num=2, rounds=4, reload=True, recommend=True) for k in ("return", "none")]
    names = [n for n in REAL if n in reg]
    rl = [dict(name=n, rounds=4 if deep else 3, flat=f) for n in names for f in (False, True)]
    sib = [n for n in sorted(reg) if getattr(reg[n], "recast", False)]
    sib = [n for n in sib if n not in optim.BROKEN_IMPORTS | optim.SLOW] + sorted(optim.TWO_COBYLAS)
    return {
        "protocol": Scenario(protocol, proto, max_dev=3 if deep else 2),
        "reload": Scenario(protocol, rel, max_dev=2 if deep else 1),
        "real": Scenario(real, rl, max_dev=2 if deep else 1),
        "siblings": Scenario(siblings, [dict(name=n, rounds=4) for n in sib], limit=150),
        "exiting": Scenario(exiting, [dict(name=n, ops=[1, 2, 5] if deep else [1, 2]) for n in (["SQP", "NelderMead", "CmaFmin2"] if deep else ["SQP"]) if n in reg], limit=150),
    }
