"""C06: pruning the archive bounds memory but never drops one of the best points."""
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization import utils
from mc.engine import Chooser
from mc.lib import check, vec
from mc.main import Scenario

RULE = (
    "(prune) every archive of n points whose evaluation lists are drawn from an alphabet of profiles, every announced minimum/maximum length; "
    "(line) every (minimum length, archive length) pair; (tells) every history of tells of new or known points on real optimizers with a small pruning. "
    "A state is the multiset/sequence of evaluation lists together with the surviving points."
)
ASSUMPTIONS = [
    "maximum length > 3 * minimum length for the bound on the archive length (documented: up to 3 * min_len points are kept)",
    "ties at the cut may be dropped (documented by the strict comparison), hence 'strictly among the best'",
]
CRITERIA = ["optimistic", "pessimistic", "average"]
PROFILES = [(0.0,), (1.0,), (-40.0, 40.0), (1.0, 1.0, 1.0), (-60.0,), (0.0, 3.0), (2.0, 2.0)]


def build(profiles: tp.Sequence[tp.Sequence[float]]) -> tp.Any:
    archive: tp.Any = utils.Archive()
    param = ng.p.Array(shape=(1,))
    for k, evals in enumerate(profiles):
        x = np.array([float(k)])
        cand = param.spawn_child(new_value=x)
        cand.loss = evals[0]
        archive[x] = utils.MultiValue(cand, evals[0], reference=param)
        for y in evals[1:]:
            archive[x].add_evaluation(y)
    return archive


def must_keep(archive: tp.Any, min_len: int) -> tp.Set[tp.Tuple[float, ...]]:
    items = [(vec(x), mv) for x, mv in archive.items_as_arrays()]
    out: tp.Set[tp.Tuple[float, ...]] = set()
    for name in CRITERIA:
        ests = np.array([mv.get_estimation(name) for _, mv in items])
        for (x, _), est in zip(items, ests):
            if np.sum(ests <= est) <= min_len:
                out.add(x)
    return out


def content(archive: tp.Any) -> tp.Dict[tp.Tuple[float, ...], tp.Any]:
    return {vec(x): mv for x, mv in archive.items_as_arrays()}


def check_pruning(before: tp.Dict[tp.Any, tp.Any], keep: tp.Set[tp.Any], after: tp.Any, min_len: int, max_len: int) -> None:
    result = content(after)
    check(all(x in before and result[x] is before[x] for x in result), "a record was replaced by the pruning")
    if len(before) < max_len:
        check(set(result) == set(before), f"points dropped although there were {len(before)} < {max_len} of them")
    else:
        check(len(result) <= 3 * min_len, f"{len(result)} points kept, more than 3 x {min_len}")
        check(keep <= set(result), f"dropped {sorted(keep - set(result))} which are among the {min_len} best")
    if max_len > 3 * min_len:
        check(len(result) < max_len, f"{len(result)} points kept although the maximum is {max_len}")


def prune(ch: Chooser, n: int, profiles: int) -> None:
    content_ = [ch.choose(PROFILES[:profiles], "evaluations") for _ in range(n)]
    for min_len in range(1, n):
        for max_len in sorted({min_len + 1, n - 1, n, n + 1}):
            if max_len <= min_len:
                continue
            archive = build(content_)
            keep = must_keep(archive, min_len)
            before = content(archive)
            summary = {x: (mv.count, mv.mean, mv.variance) for x, mv in before.items()}
            out = utils.Pruning(min_len=min_len, max_len=max_len)(archive)
            check_pruning(before, keep, out, min_len, max_len)
            for x, mv in content(out).items():
                check((mv.count, mv.mean, mv.variance) == summary[x], "the pruning modified a record")
            ch.state(content_, min_len, max_len, sorted(content(out)))


def line(ch: Chooser, min_lens: tp.List[int], max_n: int) -> None:
    """points with distinct single evaluations: exactly the min_len best are kept"""
    min_len = ch.choose(min_lens, "minimum")
    ns = [n for n in range(min_len + 1, max_n + 1)]
    n = ch.choose(ns, "number of points")
    order = [(7 * k) % n if n % 7 else k for k in range(n)]
    archive: tp.Any = utils.Archive()
    param = ng.p.Array(shape=(1,))
    cand = param.spawn_child()
    for k in order:
        cand.loss = float(k)
        archive[np.array([float(k)])] = utils.MultiValue(cand, float(k), reference=param)
    out = utils.Pruning(min_len=min_len, max_len=n)(archive)
    kept = sorted(vec(x)[0] for x, _ in out.items_as_arrays())
    check(kept == [float(k) for k in range(min_len)], f"kept {kept[:5]}.. ({len(kept)}) instead of the {min_len} best of {n}")
    ch.state(min_len, n)


def tells(
    ch: Chooser, optimizer: str, min_len: int, max_len: int, depth: int, losses: tp.List[float], repeats: bool, deterministic: bool
) -> None:
    param = ng.p.Array(shape=(1,))
    param.function.deterministic = deterministic
    cls = ng.optimizers.registry[optimizer]
    opt = cls(param, budget=200)
    opt.parametrization.random_state.seed(3)
    twin = cls(param.copy(), budget=200)
    opt.pruning = utils.Pruning(min_len=min_len, max_len=max_len)
    twin.pruning = None
    evals: tp.Dict[tp.Tuple[float, ...], tp.List[float]] = {}
    fresh = 0
    for _ in range(depth):
        k = ch.choose(fresh + 1 if repeats else 1, "point, from the newest one")
        if k == 0:
            value = np.array([float(fresh)])
            fresh += 1
        else:
            value = np.array([float(fresh - k)])
        loss = ch.choose(losses, "loss")
        cand = opt.parametrization.spawn_child(new_value=value)
        x = vec(cand.get_standardized_data(reference=opt.parametrization))
        # the reference archive: records before this tell
        before = content(opt.archive)
        counts = {y: mv.count for y, mv in before.items()}
        opt.tell(cand, loss)
        twin.tell(twin.parametrization.spawn_child(new_value=value), loss)
        evals.setdefault(x, []).append(loss)
        after = content(opt.archive)
        size = len(before) + (x not in before)
        check(set(after) <= set(before) | {x}, "a point came back in the archive")
        for y, mv in after.items():
            if y in before:
                check(mv is before[y], "a record was replaced")
            check(mv.count == counts.get(y, 0) + (y == x), "a record was modified")
        if size < max_len:
            check(len(after) == size, f"points dropped although only {size} < {max_len}")
        else:
            check(len(after) <= 3 * min_len, f"{len(after)} points kept, more than 3 x {min_len}")
        if max_len > 3 * min_len:
            check(len(after) < max_len, f"{len(after)} points in the archive although the maximum is {max_len}")
        if not repeats:  # every point is told once, so that the estimates are ordered as the losses
            best = min(e[0] for e in evals.values())
            order = sorted(e[0] for e in evals.values())
            for y, e in evals.items():
                if sum(v <= e[0] for v in order) <= min_len:
                    check(y in after, f"point with loss {e[0]} was dropped but it is among the {min_len} best of {order}")
            check(opt.recommend().loss == best, f"recommended {opt.recommend().loss} but the best loss is {best}")
            check(
                vec(opt.recommend().value) == vec(twin.recommend().value),
                "the recommendation is not the one obtained without pruning",
            )
        elif deterministic and all(len(set(e)) == 1 for e in evals.values()):
            # repeated evaluations of a deterministic function
            best = min(e[0] for e in evals.values())
            check(min(evals[vec(opt.recommend().get_standardized_data(reference=opt.parametrization))]) == best, "best point lost")
        ch.state(evals, sorted(after))


def default(ch: Chooser) -> None:
    workers = ch.choose([1, 2, 13, 14, 15, 20, 100, 1000], "num_workers")
    dimension = ch.choose([1, 2, 10, 1000, 10**5, 10**6, 10**8], "dimension")
    pruning = utils.Pruning.sensible_default(num_workers=workers, dimension=dimension)
    check(pruning.min_len >= 100 and pruning.min_len >= 7 * workers, f"too few points kept: {pruning.min_len}")
    check(3 * pruning.min_len <= pruning.max_len <= 10 * pruning.min_len, "maximum not within 3 to 10 times the minimum")
    check(
        pruning.max_len == 3 * pruning.min_len or pruning.max_len * dimension * 16 <= 1024**3, "more than 1 gb of points"
    )
    ch.state(workers, dimension, pruning.min_len, pruning.max_len)


def full_size(ch: Chooser, budget: int) -> None:
    """default pruning of a real optimizer, beyond its maximum length"""
    order = ch.choose(["increasing", "decreasing", "alternate"], "order of losses")
    opt = ng.optimizers.registry[ch.choose(["RandomSearch", "DE"], "optimizer")](2, budget=budget)
    opt.parametrization.random_state.seed(4)
    pruning = opt.pruning
    check(pruning is not None, "no pruning by default")
    best = float("inf")
    told: tp.Dict[tp.Any, float] = {}
    repeated = False
    for k in range(budget):
        cand = opt.ask()
        loss = {"increasing": k, "decreasing": budget - k, "alternate": k if k % 2 else budget - k}[order] + 0.0
        x = vec(cand.get_standardized_data(reference=opt.parametrization))
        opt.tell(cand, loss)
        repeated = repeated or x in told
        told[x] = min(loss, told.get(x, np.inf))
        best = min(best, loss)
        check(len(opt.archive) < pruning.max_len, f"{len(opt.archive)} points remembered, the maximum is {pruning.max_len}")
        if k % 50 == 0 or k == budget - 1:
            top = sorted(told, key=lambda y: told[y])[: min(len(told), pruning.min_len)]
            present = {vec(y) for y, _ in opt.archive.items_as_arrays()}
            check(repeated or set(top) <= present, f"one of the {pruning.min_len} best points was dropped")
            ch.state(order, k, len(present))
        check(opt.current_bests["minimum"].get_estimation("minimum") == best, "best value lost")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    prunes = [dict(n=4, profiles=7), dict(n=5, profiles=5)] + ([dict(n=6, profiles=6)] if deep else [])
    lines = [dict(min_lens=list(range(1, 41 if deep else 25)), max_n=150 if deep else 80), dict(min_lens=[100], max_n=120)]
    if deep:
        lines.append(dict(min_lens=[99, 100, 101], max_n=1000))
    hist = []
    for name in ("RandomSearch", "OnePlusOne"):
        hist.append(dict(optimizer=name, min_len=1, max_len=4, depth=7 if deep else 6, losses=[0.0, 1.0, 2.0, -1.0], repeats=False, deterministic=True))
        hist.append(dict(optimizer=name, min_len=2, max_len=7, depth=10 if deep else 9, losses=[0.0, 1.0], repeats=False, deterministic=False))
        hist.append(dict(optimizer=name, min_len=1, max_len=4, depth=6 if deep else 5, losses=[0.0, 1.0, -2.0], repeats=True, deterministic=True))
        hist.append(dict(optimizer=name, min_len=2, max_len=3, depth=5, losses=[0.0, 1.0], repeats=True, deterministic=False))
    return {
        "prune": Scenario(prune, prunes),
        "line": Scenario(line, lines),
        "tells": Scenario(tells, hist),
        "default": Scenario(default, [dict()]),
        "full_size": Scenario(full_size, [dict(budget=2300 if deep else 1150)]),
    }
