"""Exhaustive bounded exploration of the real nevergrad code.

A *scenario* is an ordinary Python function ``scenario(ch, **cfg)`` which drives the real code and asks
``ch`` (a :class:`Chooser`) for every decision which the property quantifies over: which operation comes
next, which running job completes, which loss a candidate gets, where a fault strikes, ...
:func:`explore` enumerates the complete tree of decisions (stateless depth first search with replay by
prefix, as in a systematic-testing model checker), so a scenario which returns without raising
:class:`Violation` for every path *is* the verdict "holds within the bounds of the scenario".

Options: ``max_dev`` bounds the number of non-default decisions along a path (a deviation/preemption bound);
``Chooser.visit`` prunes a path when the canonical state was seen before with at least as many steps left
(explicit state search on the states of the real object).
Nothing is ever sampled: caps, if hit, are reported and the run is then flagged as non exhaustive.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import typing as tp
import uuid
import warnings

REAL_TIME = time.time
EXEC_LIMIT_S = 60


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, message: str, key: tp.Optional[str] = None, **details: tp.Any) -> None:
        super().__init__(message)
        self.message = message
        self.key = key
        self.details = details


class Prune(Exception):
    """This path leads to an already explored state."""


class Hang(BaseException):
    """An execution went over its time limit. (BaseException: code under test must not swallow it)"""


def digest(obj: tp.Any) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Chooser:
    """Resolves the decisions of one execution, following a prefix then default (first) options."""

    def __init__(
        self,
        prefix: tp.Sequence[int] = (),
        salt: tp.Any = None,
        visited: tp.Optional[tp.Dict[int, int]] = None,
    ) -> None:
        self.prefix = tuple(prefix)
        self.trace: tp.List[int] = []  # chosen option at each decision
        self.widths: tp.List[int] = []
        self.bounded: tp.List[bool] = []  # does this decision count as a deviation when non default
        self.log: tp.List[tp.Any] = []
        self.states: tp.Set[int] = set()
        self.steps = 0
        self._salt = salt
        self._visited = visited
        self.replay = False

    def choose(self, options: tp.Any, tag: str = "", free: bool = False) -> tp.Any:
        """Picks one option: `options` is a sequence, or a number of options.
        free: not counted against the deviation bound"""
        seq = range(options) if isinstance(options, int) else list(options)
        if not len(seq):
            raise RuntimeError("harness error: no option to choose from")
        pos = len(self.trace)
        ind = self.prefix[pos] if pos < len(self.prefix) else 0
        if ind >= len(seq):
            raise RuntimeError(f"harness error: unstable replay at {pos}: {ind} >= {len(seq)}")
        if len(seq) > 1 or pos < len(self.prefix):
            pass
        self.trace.append(ind)
        self.widths.append(len(seq))
        self.bounded.append(not free)
        out = seq[ind]
        self.log.append([tag, out if isinstance(out, (int, float, str, bool, type(None))) else repr(out)[:80]])
        return out

    def flag(self, tag: str = "") -> bool:
        return bool(self.choose([False, True], tag))

    def note(self, *what: tp.Any) -> None:
        """Adds something in the readable log of the execution"""
        self.log.append([str(w)[:200] for w in what])

    def state(self, *parts: tp.Any) -> None:
        """Records a canonical state reached after one transition of the real code."""
        self.steps += 1
        self.states.add(digest((self._salt, parts)))

    def visit(self, remaining: int, *parts: tp.Any) -> None:
        """Same as `state`, and prunes if it was already expanded with at least `remaining` steps left.
        Only past the prefix, since the prefix is being replayed."""
        self.steps += 1
        key = digest((self._salt, parts))
        self.states.add(key)
        if self._visited is None or self.replay or len(self.trace) < len(self.prefix):
            return
        if self._visited.get(key, -1) >= remaining:
            raise Prune()
        self._visited[key] = remaining


class _Uuids:
    """Deterministic replacement of uuid4 (the only other source of nondeterminism in candidates)"""

    def __init__(self) -> None:
        self.rng = random.Random(0)

    def __call__(self) -> uuid.UUID:
        return uuid.UUID(int=self.rng.getrandbits(128), version=4)


_UUIDS = _Uuids()


def own_nondeterminism(seed: int) -> None:
    """Reset everything which is random before an execution."""
    import numpy as np

    _UUIDS.rng.seed(seed)
    uuid.uuid4 = _UUIDS  # type: ignore
    random.seed(seed)
    np.random.seed(seed % (2**32))


def _on_alarm(signum: int, frame: tp.Any) -> None:
    raise Hang()


class Outcome(tp.NamedTuple):
    kind: str  # ok, pruned, violation
    chooser: Chooser
    message: str = ""
    key: tp.Optional[str] = None
    details: tp.Any = None
    tb: str = ""


def execute(
    fn: tp.Callable[..., tp.Any],
    cfg: tp.Dict[str, tp.Any],
    chooser: Chooser,
    seed: int,
    limit: float = EXEC_LIMIT_S,
) -> Outcome:
    """One execution of a scenario along the path of the chooser."""
    own_nondeterminism(seed)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(chooser, **cfg)
        out = Outcome("ok", chooser)
    except Prune:
        out = Outcome("pruned", chooser)
    except Violation as v:
        out = Outcome("violation", chooser, v.message, v.key, v.details, traceback.format_exc())
    except Hang:
        out = Outcome(
            "violation", chooser, f"hangs: no end within {limit} s", "hang", None, traceback.format_exc()
        )
    except MemoryError:
        raise
    except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-except
        # anything the real code raises although the scenario does not expect it
        tb = traceback.format_exc()
        if "harness error" in str(e):
            raise
        out = Outcome(
            "violation", chooser, f"unexpected {type(e).__name__}: {str(e)[:300]}", "exception", None, tb
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return out


class Unit(tp.NamedTuple):
    """A subtree of the decision tree of one scenario"""

    scenario: str
    index: int
    prefixes: tp.Tuple[tp.Tuple[int, ...], ...]


class Result(tp.NamedTuple):
    unit: Unit
    runs: int
    pruned: int
    steps: int
    states: tp.Set[int]
    leftover: tp.Tuple[tp.Tuple[int, ...], ...]
    violations: tp.List[tp.Dict[str, tp.Any]]
    sample: tp.Any
    maxdepth: int


def explore_unit(
    unit: Unit,
    fn: tp.Callable[..., tp.Any],
    cfg: tp.Dict[str, tp.Any],
    *,
    seed: int,
    slice_s: float,
    max_dev: tp.Optional[int],
    dedupe: bool,
    limit: float,
    known: tp.Callable[[str], bool],
) -> Result:
    """Depth first search below the prefixes of the unit, handing back what is left after slice_s"""
    stack = list(unit.prefixes)
    visited: tp.Optional[tp.Dict[int, int]] = {} if dedupe else None
    states: tp.Set[int] = set()
    violations: tp.List[tp.Dict[str, tp.Any]] = []
    runs = pruned = steps = maxdepth = 0
    sample: tp.Any = None
    seen_keys: tp.Set[str] = set()
    t0 = REAL_TIME()
    salt = (unit.scenario, unit.index)
    while stack:
        if runs and not dedupe and REAL_TIME() - t0 > slice_s:
            break
        prefix = stack.pop()
        ch = Chooser(prefix, salt=salt, visited=visited)
        out = execute(fn, cfg, ch, seed, limit)
        runs += 1
        steps += ch.steps
        states |= ch.states
        maxdepth = max(maxdepth, len(ch.trace))
        if out.kind == "pruned":
            pruned += 1
        if out.kind == "violation":
            key = f"{unit.scenario}:{out.key or ''}"
            if key not in seen_keys or not known(key):
                seen_keys.add(key)
                violations.append(
                    dict(
                        scenario=unit.scenario,
                        index=unit.index,
                        cfg=cfg,
                        choices=list(ch.trace),
                        message=out.message,
                        key=key,
                        details=out.details,
                        log=ch.log[-80:],
                        traceback=out.tb[-6000:],
                    )
                )
            if not known(key):
                stack = []
                break
        elif sample is None or (len(ch.log) > len(sample) and runs < 50):
            sample = ch.log[:40]
        devs = 0
        for k in range(len(ch.trace)):
            if k >= len(prefix):
                for alt in range(ch.widths[k] - 1, 0, -1):
                    if max_dev is None or not ch.bounded[k] or devs + 1 <= max_dev:
                        stack.append(tuple(ch.trace[:k]) + (alt,))
            if ch.trace[k] and ch.bounded[k]:
                devs += 1
    return Result(unit, runs, pruned, steps, states, tuple(stack), violations, sample, maxdepth)


def jsonable(obj: tp.Any) -> tp.Any:
    try:
        json.dumps(obj)
        return obj
    except TypeError:
        if isinstance(obj, dict):
            return {str(k): jsonable(v) for k, v in obj.items()}
        if isinstance(obj, (list, tuple, set)):
            return [jsonable(v) for v in obj]
        return repr(obj)


def silence() -> None:
    sys.stdout.flush()
    sys.stderr.flush()
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
