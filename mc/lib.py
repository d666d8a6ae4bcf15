"""Shared pieces of the drivers: virtual clock, controlled executor, ledgers."""
import contextlib
import time
import typing as tp

import numpy as np

from .engine import Chooser, Violation


class Clock:
    """Virtual time: time.time/perf_counter read it, time.sleep advances it and calls a hook"""

    def __init__(self, on_sleep: tp.Optional[tp.Callable[[], None]] = None, max_sleeps: int = 2000) -> None:
        self.now = 1000.0
        self.sleeps = 0
        self.max_sleeps = max_sleeps
        self.on_sleep = on_sleep
        self.tick = 1e-6

    def time(self) -> float:
        self.now += self.tick
        return self.now

    def sleep(self, duration: float) -> None:
        self.sleeps += 1
        self.now += max(0.0, duration)
        if self.sleeps > self.max_sleeps:
            raise Violation(f"no termination: {self.sleeps} waits")
        if self.on_sleep is not None:
            self.on_sleep()

    @contextlib.contextmanager
    def installed(self) -> tp.Iterator["Clock"]:
        saved = time.time, time.sleep
        time.time, time.sleep = self.time, self.sleep  # type: ignore
        try:
            yield self
        finally:
            time.time, time.sleep = saved  # type: ignore


def check(cond: tp.Any, message: str, key: tp.Optional[str] = None, **details: tp.Any) -> None:
    if not cond:
        raise Violation(message, key=key, **details)


class Job:
    """Future-like object whose completion is decided by the chooser, at each poll"""

    def __init__(self, executor: "ChoiceExecutor", index: int, fn: tp.Any, args: tp.Any, kwargs: tp.Any):
        self.executor = executor
        self.index = index
        self.call = (fn, args, kwargs)
        self.completed = False
        self.postponed = 0
        self.evaluated = False
        self.value: tp.Any = None
        self.reads = 0

    def done(self) -> bool:
        ex = self.executor
        ex.on_poll(self)
        if not self.completed:
            late = self.postponed < ex.max_postpone and ex.ch.choose([False, True], f"job {self.index} late")
            if late:
                self.postponed += 1
            else:
                self.completed = True
                ex.on_completed(self)
        return self.completed

    def result(self) -> tp.Any:
        self.executor.on_result(self)
        if not self.completed:
            raise Violation(f"result of job {self.index} is read before its completion")
        if not self.evaluated:
            self.evaluated = True
            fn, args, kwargs = self.call
            self.value = fn(*args, **kwargs)
        self.reads += 1
        return self.value


class ChoiceExecutor:
    """Executor in which the explorer decides the poll at which each job gets done"""

    def __init__(self, ch: Chooser, max_postpone: int = 2) -> None:
        self.ch = ch
        self.max_postpone = max_postpone
        self.jobs: tp.List[Job] = []
        self.polls = 0

    # hooks for the drivers
    def on_submit(self, job: Job) -> None:
        pass

    def on_poll(self, job: Job) -> None:
        pass

    def on_completed(self, job: Job) -> None:
        pass

    def on_result(self, job: Job) -> None:
        pass

    def submit(self, fn: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> Job:
        job = Job(self, len(self.jobs), fn, args, kwargs)
        self.jobs.append(job)
        self.on_submit(job)
        return job


def vec(x: tp.Any) -> tp.Tuple[float, ...]:
    return tuple(float(v) for v in np.asarray(x, dtype=float).ravel())


def same(a: tp.Any, b: tp.Any) -> bool:
    """Deep equality of values made of containers, arrays and scalars"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            aa, bb = np.asarray(a), np.asarray(b)
            return aa.shape == bb.shape and bool(np.array_equal(aa, bb, equal_nan=aa.dtype.kind == "f"))
        except TypeError:
            return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def close(a: tp.Any, b: tp.Any, rtol: float = 1e-9, atol: float = 1e-9) -> bool:
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rtol, atol) for k in a)
    try:
        aa, bb = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return same(a, b)
    return aa.shape == bb.shape and bool(np.allclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True))


def snap(value: tp.Any) -> tp.Any:
    """Deep, hashable snapshot of a value (detects aliasing with later modifications)"""
    if isinstance(value, np.ndarray):
        return ("nd", value.shape, value.dtype.kind, tuple(v if isinstance(v, str) else float(v) for v in value.ravel()))
    if isinstance(value, dict):
        return ("dict", tuple(sorted(((str(k), snap(v)) for k, v in value.items()))))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__,) + tuple(snap(v) for v in value)
    if isinstance(value, np.generic):
        return snap(value.item())
    return value if isinstance(value, (int, float, str, bool, type(None))) else repr(value)


def forked(fn: tp.Callable[[], tp.Any], limit: float = 60.0) -> tp.Any:
    """Result of the function run in a child process, which is killed when it takes too long"""
    import os
    import pickle
    import select
    import signal

    rfd, wfd = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out: tp.Any = (True, fn())
            except Violation as e:
                out = (None, (str(e), e.key))
            except BaseException as e:  # pylint: disable=broad-except
                out = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    t0 = time.time()
    try:
        while True:
            ready, _, _ = select.select([rfd], [], [], max(0.0, limit - (time.time() - t0)))
            if not ready:
                raise Violation(f"no answer after {limit} seconds")
            part = os.read(rfd, 1 << 20)
            if not part:
                break
            data += part
    finally:
        os.close(rfd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died")
    ok, out = pickle.loads(data)
    if ok is None:
        raise Violation(out[0], key=out[1])
    if not ok:
        raise RuntimeError(out)
    return out
