"""C09: non-dominated ranking sorts any population into true Pareto layers."""
import itertools
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import nsga2
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution ranks one population, for every number of selected candidates; populations are all the sequences (or multisets) of loss vectors "
    "of a grid up to n candidates, and all the relative orders (permutations) of n candidates for up to 4 objectives. The oracle peels the Pareto "
    "layers by brute force. A state is the population."
)
ASSUMPTIONS = ["which candidates are kept at the cut is only compared exactly for fronts without ties in any objective"]
Vector = tp.Tuple[float, ...]
_PARAM: tp.List[tp.Any] = []


def population(vectors: tp.Sequence[Vector]) -> tp.List[tp.Any]:
    if not _PARAM:
        _PARAM.append(ng.p.Scalar())
    out = []
    for v in vectors:
        cand = _PARAM[0].spawn_child()
        if len(v) == 1:
            cand.loss = v[0]
        else:
            cand._losses = np.array(v)
        out.append(cand)
    return out


def layers(vectors: tp.Sequence[Vector]) -> tp.List[int]:
    """layer index of each candidate"""
    rank = [-1] * len(vectors)
    current = 0
    while -1 in rank:
        left = [k for k, r in enumerate(rank) if r < 0]
        for k in left:
            a = vectors[k]
            if not any(
                all(x <= y for x, y in zip(vectors[j], a)) and any(x < y for x, y in zip(vectors[j], a)) for j in left
            ):
                rank[k] = current
        current += 1
    return rank


def crowding(vectors: tp.Sequence[Vector]) -> tp.Optional[tp.List[float]]:
    """textbook crowding distance; None when ties make it ambiguous"""
    n, d = len(vectors), len(vectors[0])
    if n <= 2:
        return [float("inf")] * n
    dist = [0.0] * n
    for i in range(d):
        values = [v[i] for v in vectors]
        if len(set(values)) < n:
            return None
        order = sorted(range(n), key=lambda k: values[k])
        dist[order[0]] = dist[order[-1]] = float("inf")
        for a, b, c in zip(order, order[1:], order[2:]):
            dist[b] += (values[c] - values[a]) / (values[order[-1]] - values[order[0]])
    return dist


def check_population(vectors: tp.Sequence[Vector], selections: tp.Sequence[tp.Optional[int]]) -> None:
    expected = layers(vectors)
    n = len(vectors)
    for n_selected in selections:
        pop = population(vectors)
        uids = [c.uid for c in pop]
        out = nsga2.rank(pop, n_selected=n_selected)
        check([c.uid for c in pop] == uids, "the population was modified")
        name = f"{list(vectors)} with {n_selected} selected"
        check(set(out) <= set(uids), f"unknown candidates ranked: {name}")
        count = n if n_selected is None else min(n, n_selected)
        check(len(out) == count, f"{len(out)} candidates kept instead of {count}: {name}")
        chosen = [k for k in range(n) if uids[k] in out]
        for k in chosen:
            check(out[uids[k]][1] == expected[k], f"candidate {vectors[k]} in front {out[uids[k]][1]} instead of {expected[k]}: {name}")
        if len(chosen) < n:
            worst = max((expected[k] for k in chosen), default=0)
            best_out = min(expected[k] for k in range(n) if k not in chosen)
            check(not chosen or worst <= best_out, f"kept one of front {worst} and not one of front {best_out}: {name}")
        for j, k in itertools.combinations(chosen, 2):
            if expected[j] != expected[k]:
                rj, rk = out[uids[j]][0], out[uids[k]][0]
                check((rj < rk) == (expected[j] < expected[k]), f"rank {rj}, {rk} not in the order of the fronts: {name}")
        if n_selected is None:
            check(sorted(r for r, _, _ in out.values()) == list(range(n)), f"ranks are not 0 to {n - 1}: {name}")
        # crowding in each front which had to be sorted
        for layer in set(expected):
            members = [k for k in range(n) if expected[k] == layer]
            kept = [k for k in members if k in chosen]
            ref = crowding([vectors[k] for k in members])
            if ref is None or (n_selected is not None and len(kept) == len(members)):
                continue
            dist = dict(zip(members, ref))
            for k in kept:
                check(abs(out[uids[k]][2] - dist[k]) < 1e-9 or out[uids[k]][2] == dist[k], f"distance {out[uids[k]][2]} instead of {dist[k]}: {name}")
            best = sorted((dist[k] for k in members), reverse=True)[: len(kept)]
            got = sorted((dist[k] for k in kept), reverse=True)
            check(
                all(a == b or abs(a - b) < 1e-9 for a, b in zip(best, got)),
                f"kept candidates with isolation {got} while the most isolated ones have {best}: {name}",
            )
            ranked = sorted(kept, key=lambda k: out[uids[k]][0])
            for a, b in zip(ranked, ranked[1:]):
                check(dist[a] >= dist[b] - 1e-9, f"ranks within a front do not follow the isolation: {name}")


def grid(ch: Chooser, size: int, d: int, n: int, ordered: bool) -> None:
    cells = list(itertools.product(*[[float(k) for k in range(size)]] * d))
    vectors: tp.List[Vector] = []
    low = 0
    for _ in range(n):
        low = ch.choose(list(range(0 if ordered else low, len(cells))), "losses")
        vectors.append(cells[low])
    selections = [None] + list(range(1, n + 2)) if not ordered else [None, max(1, n // 2), n - 1]
    check_population(vectors, selections)
    ch.state(vectors)


def generic(ch: Chooser, d: int, n: int) -> None:
    steps = [0.0, 1.0, 3.0, 3.5, 7.0, 7.75]
    coords: tp.List[tp.List[int]] = [list(range(n))]
    for i in range(1, d):
        left = list(range(n))
        coords.append([left.pop(ch.choose(len(left), f"rank in objective {i}")) for _ in range(n)])
    vectors = [tuple(steps[c[k]] * (i + 1) for i, c in enumerate(coords)) for k in range(n)]
    check_population(vectors, [None] + list(range(1, n + 1)))
    ch.state(vectors)


def line(ch: Chooser, n: int) -> None:
    """one large front with unequal distances: which ones are kept"""
    left = list(range(n))
    steps = [0.0, 1.0, 3.0, 3.5, 7.0, 7.75, 9.5, 9.75]
    order = [left.pop(ch.choose(len(left), "next")) for _ in range(n)]
    vectors = [(steps[k], 10.0 - 0.5 * steps[k] - 0.1 * k) for k in order]
    check_population(vectors, [None] + list(range(1, n + 1)))
    ch.state(vectors)


def optimizer(ch: Chooser, popsize: int, grid_: tp.List[float], depth: int) -> None:
    """evolution strategy with this ranking: the survivors are never in a worse front than a discarded individual"""
    opt = ng.families.EvolutionStrategy(popsize=popsize, offsprings=popsize, ranker="nsga2")(ng.p.Array(shape=(2,)), budget=100)
    opt.parametrization.random_state.seed(12)
    told: tp.Dict[str, Vector] = {}
    for _ in range(depth):
        cand = opt.ask()
        losses = (ch.choose(grid_, "objective 0"), ch.choose(grid_, "objective 1"))
        told[cand.uid] = losses
        opt.tell(cand, list(losses))
    nd = [v for v, r in zip(told.values(), layers(list(told.values()))) if r == 0]
    front = {tuple(float(x) for x in c.losses) for c in opt.pareto_front()}
    check(front == set(nd), f"front {front} instead of {nd}")
    ch.state(tuple(told.values()))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    grids = [
        dict(size=3, d=2, n=4, ordered=True),
        dict(size=3, d=2, n=5, ordered=False),
        dict(size=3, d=3, n=3, ordered=True),
        dict(size=2, d=3, n=5 if deep else 4, ordered=False),
        dict(size=3, d=3, n=4, ordered=False) if deep else dict(size=3, d=3, n=3, ordered=False),
        dict(size=2, d=4, n=3, ordered=False),
        dict(size=3, d=1, n=4, ordered=True),
    ]
    if deep:
        grids.append(dict(size=4, d=2, n=5, ordered=False))
        grids.append(dict(size=3, d=2, n=6, ordered=False))
    gen = [dict(d=2, n=5), dict(d=3, n=4), dict(d=4, n=3)] + ([dict(d=3, n=5), dict(d=4, n=4), dict(d=2, n=6)] if deep else [])
    return {
        "grid": Scenario(grid, grids),
        "generic": Scenario(generic, gen),
        "line": Scenario(line, [dict(n=3), dict(n=5), dict(n=6 if not deep else 7)]),
        "optimizer": Scenario(optimizer, [dict(popsize=2, grid_=[0.0, 1.0, 2.0], depth=3), dict(popsize=1, grid_=[0.0, 1.0], depth=5)]),
    }
