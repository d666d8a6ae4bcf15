"""A RandomState whose draws are resolved by a callback (the explorer), whatever the method which is used"""
import typing as tp

import numpy as np
from scipy import stats

LOW, HIGH = 1e-9, 1 - 1e-9


class Scripted(np.random.RandomState):
    """All the draws derive from uniform numbers provided by the "source" function"""

    def __init__(self, source: tp.Callable[[], float]) -> None:
        super().__init__(0)
        self.source = source
        self.draws = 0

    def _u(self) -> float:
        self.draws += 1
        return float(min(1 - 1e-16, max(0.0, self.source())))

    def _fill(self, size: tp.Any, fn: tp.Callable[[], tp.Any], dtype: tp.Any = float) -> tp.Any:
        if size is None:
            return fn()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = np.empty(shape, dtype=dtype)
        flat = out.ravel()
        for k in range(flat.size):
            flat[k] = fn()
        return flat.reshape(shape)

    def random_sample(self, size: tp.Any = None) -> tp.Any:
        return self._fill(size, self._u)

    random = random_sample

    def rand(self, *args: tp.Any) -> tp.Any:
        return self.random_sample(args if args else None)

    def uniform(self, low: tp.Any = 0.0, high: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.random_sample(size) if size is not None else low + (high - low) * self._u()

    def _normal(self) -> float:
        return float(stats.norm.ppf(min(HIGH, max(LOW, self._u()))))

    def standard_normal(self, size: tp.Any = None) -> tp.Any:
        return self._fill(size, self._normal)

    def randn(self, *args: tp.Any) -> tp.Any:
        return self.standard_normal(args if args else None)

    def normal(self, loc: tp.Any = 0.0, scale: tp.Any = 1.0, size: tp.Any = None) -> tp.Any:
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def standard_cauchy(self, size: tp.Any = None) -> tp.Any:
        return self._fill(size, lambda: float(np.tan(np.pi * (min(HIGH, max(LOW, self._u())) - 0.5))))

    def randint(self, low: tp.Any, high: tp.Any = None, size: tp.Any = None, dtype: tp.Any = int) -> tp.Any:
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError("low >= high")
        return self._fill(size, lambda: int(min(high - 1, low + int(self._u() * (high - low)))), int)

    def choice(self, a: tp.Any, size: tp.Any = None, replace: bool = True, p: tp.Any = None) -> tp.Any:
        options = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        weights = [1.0 / len(options)] * len(options) if p is None else [float(x) for x in p]
        number = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(number):
            u, total = self._u() * sum(weights), 0.0
            index = len(options) - 1
            for k, w in enumerate(weights):
                total += w
                if u < total and w > 0:
                    index = k
                    break
            out.append(options[index])
            if not replace:
                del options[index], weights[index]
        if size is None:
            return out[0]
        return np.array(out).reshape(size)

    def permutation(self, x: tp.Any) -> tp.Any:
        arr = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array([arr.pop(int(self._u() * len(arr))) for _ in range(len(arr))])

    def shuffle(self, x: tp.Any) -> None:
        new = self.permutation(list(x))
        for k, v in enumerate(new):
            x[k] = v

    def __reduce__(self) -> tp.Any:
        return (np.random.RandomState, (0,))

    def __deepcopy__(self, memo: tp.Any) -> "Scripted":
        return self


class Chosen(Scripted):
    """Integers and options are all enumerated by the explorer, real numbers are taken in a grid.
    After a number of draws, the numbers cycle without branching (which ends the rejection loops)"""

    def __init__(self, ch: tp.Any, grid: tp.Sequence[float], max_draws: int = 12) -> None:
        self.ch = ch
        self.grid = list(grid)
        self.max_draws = max_draws
        self.count = 0
        super().__init__(self._next)

    def _pick(self, options: tp.Sequence[tp.Any], what: str) -> tp.Any:
        self.count += 1
        if self.count > self.max_draws:
            return options[(7 * self.count // 3) % len(options)]
        return self.ch.choose(list(options), what)

    def _next(self) -> float:
        return float(self._pick(self.grid, "uniform"))

    def randint(self, low: tp.Any, high: tp.Any = None, size: tp.Any = None, dtype: tp.Any = int) -> tp.Any:
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        options = list(range(low, high)) if high - low <= 16 else list(range(low, low + 4)) + list(range(high - 4, high))
        return self._fill(size, lambda: int(self._pick(options, "integer")), int)

    def choice(self, a: tp.Any, size: tp.Any = None, replace: bool = True, p: tp.Any = None) -> tp.Any:
        options = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        index = [k for k in range(len(options)) if p is None or p[k] > 0]
        out = []
        for _ in range(1 if size is None else int(np.prod(size))):
            k = self._pick(index, "option")
            out.append(options[k])
            if not replace:
                index = [x for x in index if x != k]
        if size is None:
            return out[0]
        return np.array(out).reshape(size)

    def permutation(self, x: tp.Any) -> tp.Any:
        arr = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array([arr.pop(self._pick(list(range(len(arr))), "permutation")) for _ in range(len(arr))])
