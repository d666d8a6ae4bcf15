"""Controlled scheduler: real Python threads which run one at a time, the explorer choosing who goes on at each operation on
queues, events and thread liveness (the points at which the threads of the recast optimizers interact).

A switch away from a thread which could go on counts as a deviation (so that Scenario.max_dev is a preemption bound).
A thread which returned from its `run` still is alive until the scheduler runs its last step: the window
between the last action of a thread and its actual end is explored as well.
"""
import _thread
import contextlib
import gc
import queue
import threading
import typing as tp

from .engine import Chooser


class Kill(BaseException):
    """Unwinds a controlled thread at the end of an execution"""


class Deadlock(Exception):
    """No thread can go on although the main thread waits for something"""


class _Rec:
    def __init__(self, name: str, thread: tp.Any) -> None:
        self.name = name
        self.thread = thread
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.cond: tp.Optional[tp.Callable[[], bool]] = None
        self.timed = False
        self.timeouts = 0  # in a row
        self.dead = False
        self.what = ""
        self.killed = False


_ACTIVE: tp.List["Sched"] = []


class Sched:
    def __init__(self, ch: Chooser, max_points: int = 4000, atomic: tp.Iterable[str] = ()) -> None:
        self.ch = ch
        self.main = _Rec("main", None)
        self.recs: tp.List[_Rec] = [self.main]
        self.by_ident: tp.Dict[int, _Rec] = {_thread.get_ident(): self.main}
        self.by_thread: tp.Dict[int, _Rec] = {}
        self.bypass = False
        self.points = 0
        self.max_points = max_points
        self.atomic = set(atomic)  # operations which are not scheduling points
        self.draining = False
        self.stuck = False

    # core
    def me(self) -> tp.Optional[_Rec]:
        return None if self.bypass else self.by_ident.get(_thread.get_ident())

    def _enabled(self, rec: _Rec) -> bool:
        return not rec.dead and (rec.cond is None or rec.cond())

    def _can_time_out(self, rec: _Rec) -> bool:
        """a few time-outs in a row are enough to tell whether the thread goes on"""
        return not rec.dead and rec.timed and rec.timeouts < 3

    def point(self, rec: _Rec, what: str, cond: tp.Optional[tp.Callable[[], bool]] = None, timed: bool = False) -> bool:
        """Scheduling point before an operation which needs `cond`. Returns whether cond holds (always, unless it timed out)"""
        if rec.killed:
            raise Kill()
        self.points += 1
        if self.points > self.max_points:
            raise Deadlock(f"no termination within {self.max_points} operations ({what})")
        rec.cond, rec.what, rec.timed = cond, what, timed
        if what in self.atomic and (cond is None or cond()):
            return True
        nxt = self._pick(rec)
        if nxt is not rec:
            nxt.lock.release()
            rec.lock.acquire()
            if rec.killed:
                raise Kill()
            if rec is self.main and self.stuck:
                self.stuck = False
                if not self.draining:
                    raise Deadlock(self.describe())
        ok = cond is None or cond()
        rec.cond = None
        rec.timeouts = rec.timeouts + 1 if not ok else 0
        return ok

    def describe(self) -> str:
        return "; ".join(f"{r.name} " + ("ended" if r.dead else f"waits at {r.what}") for r in self.recs)

    def _pick(self, rec: _Rec) -> _Rec:
        able = [r for r in self.recs if self._enabled(r)]
        if not able:
            # time passes only when nothing else can happen
            able = [r for r in self.recs if self._can_time_out(r)]
            if not able:
                if rec is self.main:
                    if self.draining:
                        return rec
                    raise Deadlock(self.describe())
                self.stuck = True
                return self.main
            return able[0]
        if rec in able:
            able.remove(rec)
            able.insert(0, rec)
        if len(able) == 1:
            return able[0]
        return able[self.ch.choose(len(able), f"{rec.what}: next of {[r.name for r in able]}", free=able[0] is not rec)]

    # threads
    def start(self, thread: tp.Any) -> None:
        creator = self.me()
        assert creator is not None
        rec = _Rec(f"thread{len(self.recs)}", thread)
        rec.what = "start"
        self.by_thread[id(thread)] = rec
        run = thread.run

        def controlled() -> None:
            rec.lock.acquire()
            self.by_ident[_thread.get_ident()] = rec
            try:
                if not rec.killed:
                    run()
                    self.point(rec, "end of thread")
            except Kill:
                pass
            except BaseException as e:  # pylint: disable=broad-except
                self.ch.note("thread failed", type(e).__name__, e)
            rec.dead = True
            self.by_ident.pop(_thread.get_ident(), None)
            if rec.killed:
                return
            nxt = None
            try:
                rec.what = "ended"
                nxt = self._pick(rec)
            except BaseException:  # pylint: disable=broad-except
                self.stuck = True
                nxt = self.main
            nxt.lock.release()

        thread.run = controlled
        self.bypass = True
        try:
            _ORIG["start"](thread)
        finally:
            self.bypass = False
        self.recs.append(rec)
        self.point(creator, "start")

    def drain(self) -> tp.List[str]:
        """Lets the other threads go on until they end or wait forever: returns those which wait"""
        gc.collect()
        self.draining = True
        while True:
            able = [r for r in self.recs[1:] if self._enabled(r) or self._can_time_out(r)]
            if not able:
                break
            self.point(self.main, "drain", cond=lambda: not any(self._enabled(r) or self._can_time_out(r) for r in self.recs[1:]))
        self.draining = False
        return [f"{r.name} waits at {r.what}" for r in self.recs[1:] if not r.dead]

    @contextlib.contextmanager
    def installed(self) -> tp.Iterator["Sched"]:
        assert not _ACTIVE
        was = gc.isenabled()
        if not gc.get_freeze_count():
            gc.collect()
        gc.freeze()  # collections of this execution only look at what it creates
        gc.disable()
        _ACTIVE.append(self)
        _patch()
        try:
            yield self
        finally:
            self.bypass = True
            for rec in self.recs[1:]:
                if not rec.dead:
                    rec.killed = True
                    try:
                        rec.lock.release()
                    except RuntimeError:
                        pass
            for rec in self.recs[1:]:
                _ORIG["join"](rec.thread, 10)
            _unpatch()
            _ACTIVE.pop()
            if was:
                gc.enable()


_ORIG: tp.Dict[str, tp.Any] = dict(
    start=threading.Thread.start,
    is_alive=threading.Thread.is_alive,
    join=threading.Thread.join,
    put=queue.Queue.put,
    get=queue.Queue.get,
    empty=queue.Queue.empty,
    qsize=queue.Queue.qsize,
    SimpleQueue=queue.SimpleQueue,
    ewait=threading.Event.wait,
    eset=threading.Event.set,
    eis_set=threading.Event.is_set,
)


def _ctx() -> tp.Tuple[tp.Optional[Sched], tp.Optional[_Rec]]:
    if not _ACTIVE:
        return None, None
    return _ACTIVE[0], _ACTIVE[0].me()


def _start(self: tp.Any) -> None:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["start"](self)
    s.start(self)


def _is_alive(self: tp.Any) -> bool:
    s, me = _ctx()
    rec = None if s is None else s.by_thread.get(id(self))
    if s is None or me is None or rec is None:
        return _ORIG["is_alive"](self)
    s.point(me, "is_alive")
    return not rec.dead


def _join(self: tp.Any, timeout: tp.Optional[float] = None) -> None:
    s, me = _ctx()
    rec = None if s is None else s.by_thread.get(id(self))
    if s is None or me is None or rec is None:
        return _ORIG["join"](self, timeout)
    target = rec
    s.point(me, "join", cond=lambda: target.dead, timed=timeout is not None)
    return None


def _put(self: tp.Any, item: tp.Any, block: bool = True, timeout: tp.Optional[float] = None) -> None:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["put"](self, item, block, timeout)
    cond = None if self.maxsize <= 0 else (lambda: self._qsize() < self.maxsize)
    if not s.point(me, "put", cond=cond if block else None, timed=timeout is not None) or (cond is not None and not cond()):
        raise queue.Full
    self._put(item)
    self.unfinished_tasks += 1
    return None


def _get(self: tp.Any, block: bool = True, timeout: tp.Optional[float] = None) -> tp.Any:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["get"](self, block, timeout)
    cond = lambda: self._qsize() > 0  # noqa: E731
    s.point(me, "get", cond=cond if block else None, timed=timeout is not None)
    if not cond():
        raise queue.Empty
    return self._get()


def _empty(self: tp.Any) -> bool:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["empty"](self)
    s.point(me, "empty")
    return not self._qsize()


def _qsize(self: tp.Any) -> int:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["qsize"](self)
    s.point(me, "qsize")
    return self._qsize()


def _ewait(self: tp.Any, timeout: tp.Optional[float] = None) -> bool:
    s, me = _ctx()
    if s is None or me is None:
        return _ORIG["ewait"](self, timeout)
    s.point(me, "wait", cond=lambda: self._flag, timed=timeout is not None)
    return self._flag


def _eset(self: tp.Any) -> None:
    s, me = _ctx()
    if s is not None and me is not None:
        s.point(me, "set")
        s.bypass = True
        try:
            return _ORIG["eset"](self)
        finally:
            s.bypass = False
    return _ORIG["eset"](self)


def _eis_set(self: tp.Any) -> bool:
    s, me = _ctx()
    if s is not None and me is not None:
        s.point(me, "is_set")
    return self._flag


class _SimpleQueue(queue.Queue):
    pass


def _patch() -> None:
    t: tp.Any = threading.Thread
    t.start, t.is_alive, t.join = _start, _is_alive, _join
    q: tp.Any = queue.Queue
    q.put, q.get, q.empty, q.qsize = _put, _get, _empty, _qsize
    queue.SimpleQueue = _SimpleQueue  # type: ignore
    e: tp.Any = threading.Event
    e.wait, e.set, e.is_set = _ewait, _eset, _eis_set


def _unpatch() -> None:
    t: tp.Any = threading.Thread
    t.start, t.is_alive, t.join = _ORIG["start"], _ORIG["is_alive"], _ORIG["join"]
    q: tp.Any = queue.Queue
    q.put, q.get, q.empty, q.qsize = _ORIG["put"], _ORIG["get"], _ORIG["empty"], _ORIG["qsize"]
    queue.SimpleQueue = _ORIG["SimpleQueue"]  # type: ignore
    e: tp.Any = threading.Event
    e.wait, e.set, e.is_set = _ORIG["ewait"], _ORIG["eset"], _ORIG["eis_set"]
