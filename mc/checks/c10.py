"""C10: population based optimizers survive any order of asks and tells, with a bounded and elitist population."""
import typing as tp

import numpy as np
import nevergrad as ng
from mc.engine import Chooser
from mc.lib import check, vec
from mc.main import Scenario

RULE = (
    "an execution is a sequence of operations on a real optimizer with a small population: ask, tell a pending candidate (any of the pending ones), "
    "tell a foreign candidate, tell again a told candidate, each with any loss of the alphabet; then the optimizer is asked a few more times. "
    "A state is the abstract history (operations, who was told, losses)."
)
ASSUMPTIONS = [
    "the population is observed through the population attribute when there is one (DE, PSO), and otherwise through the parents of asked candidates",
    "elitism is required when no candidate is told twice",
]


def make(name: str) -> tp.Any:
    """family-parameters, or a registered name"""
    fam, _, args = name.partition(":")
    if fam == "DE":
        pop, _, rest = args.partition(",")
        kwargs: tp.Dict[str, tp.Any] = dict(popsize=int(pop))
        if rest:
            kwargs["crossover"] = rest
        return ng.families.DifferentialEvolution(**kwargs), int(pop)
    if fam == "PSO":
        return ng.families.ParticleSwarmOptimization(popsize=int(args)) if hasattr(
            ng.families, "ParticleSwarmOptimization"
        ) else ng.families.ConfPSO(popsize=int(args)), int(args)
    if fam == "ES":
        pop, off, only, rec = args.split(",")
        return (
            ng.families.EvolutionStrategy(
                popsize=int(pop), offsprings=int(off) or None, only_offsprings=only == "1", recombination_ratio=float(rec)
            ),
            int(pop),
        )
    return ng.optimizers.registry[name], None


class Tracker:
    """Checks which apply at any time"""

    def __init__(self, opt: tp.Any, nominal: tp.Optional[int], kind: str) -> None:
        self.opt = opt
        self.parent: tp.Optional[str] = None  # parent of the last asked candidate
        self.nominal = nominal
        self.kind = kind
        self.told: tp.Dict[str, float] = {}
        self.repeated = False
        self.before: tp.Dict[str, tp.Any] = {}
        self.foreign: tp.Set[str] = set()
        self.slots: tp.Dict[str, str] = {}  # candidate -> individual it comes from

    def snapshot(self) -> None:
        pop = getattr(self.opt, "population", None) if self.kind in ("DE", "PSO") else None
        self.before = {} if pop is None else {u: (c.uid, self.told.get(c.uid)) for u, c in pop.items()}

    def after(self, op: str, uid: tp.Optional[str], loss: tp.Optional[float]) -> None:
        if self.kind not in ("DE", "PSO"):
            return
        pop = self.opt.population
        check(len(pop) <= self.nominal, f"{len(pop)} individuals for a population of size {self.nominal}")
        uids = [c.uid for c in pop.values()]
        check(self.repeated or len(set(uids)) == len(uids), "an individual is twice in the population")
        if op == "ask":
            for u, (c, _) in self.before.items():
                check(u in pop and pop[u].uid == c, "asking replaced an individual")
                if self.parent is not None and c == self.parent:
                    self.slots[uid] = u  # type: ignore
            return
        slot = self.slots.get(uid, "")  # type: ignore
        if op != "again" and not self.repeated and slot in self.before:
            for u, (c, _) in self.before.items():
                check(u in pop, f"individual {'' if u == slot else 'not '}concerned by the told candidate is removed", key="slot")
                check(pop[u].uid == c or u == slot, "the result of a candidate changed another individual than the one it comes from", key="slot")
            check(len(pop) == len(self.before), "the result of a candidate which comes from an individual added another individual", key="slot")
            if self.kind == "PSO":
                check(pop[slot].uid == uid, "the particle does not move to its new position", key="slot")
        if self.kind != "DE" or self.repeated:
            return
        for u, (c, old) in self.before.items():
            new = pop[u].uid if u in pop else uid
            if new == c:
                continue
            check(new == uid, "an individual was replaced by a candidate which was not the one being told")
            if u not in pop:
                check(uid in pop, "an individual was removed although the told candidate was not inserted")
            check(old is None or loss <= old, f"individual with loss {old} was replaced by one with loss {loss}")
        if self.told:
            best = min(self.told.values())
            inside = [self.told[v] for v in uids if v in self.told]
            check(inside and min(inside) == best, f"the best told candidate ({best}) is not in the population {inside}")


def interleave(
    ch: Chooser, name: str, depth: int, losses: tp.List[float], workers: int, prefix: int = 0, dim: int = 2, foreign: bool = True, again: bool = True
) -> None:
    cls, nominal = make(name)
    kind = name.partition(":")[0]
    opt = cls(ng.p.Array(shape=(dim,)), budget=1000, num_workers=workers)
    opt.parametrization.random_state.seed(12)
    track = Tracker(opt, nominal, kind)
    pending: tp.List[tp.Any] = []
    told: tp.List[tp.Any] = []
    hist: tp.List[tp.Any] = []

    def ask() -> None:
        track.snapshot()
        cand = opt.ask()
        track.parent = cand.parents_uids[0] if cand.parents_uids else None
        track.after("ask", cand.uid, None)
        pending.append(cand)

    def tell(cand: tp.Any, loss: float, op: str) -> None:
        track.snapshot()
        opt.tell(cand, loss)
        track.told[cand.uid] = loss
        track.after(op, cand.uid, loss)
        told.append(cand)

    for k in range(prefix):
        ask()
        tell(pending.pop(), losses[k % len(losses)] + 10.0, "tell")
    for step in range(depth):
        options = ["ask"] if len(pending) < workers + 1 else []
        options += [f"tell {k}" for k in range(len(pending))]
        if foreign:
            options.append("foreign")
        if again and told:
            options.append("again")
        op = ch.choose(options, "operation")
        if op == "ask":
            ask()
            hist.append("a")
        else:
            loss = ch.choose(losses, "loss")
            if op == "foreign":
                cand = opt.parametrization.spawn_child(new_value=np.array([0.5 * step - 0.7] * dim))
                track.foreign.add(cand.uid)
            elif op == "again":
                track.repeated = True
                cand = told[-1]
            else:
                cand = pending.pop(int(op.split()[1]))
            tell(cand, loss, op)
            hist.append((op, loss))
        ch.state(tuple(hist))
    # the optimizer goes on: everything still works, and pending ones can still be told
    for cand in pending:
        tell(cand, losses[0], "tell")
    del pending[:]
    lineages = set()
    for _ in range(2 * (nominal or 3) + 2):
        ask()
        cand = pending[-1]
        check(np.all(np.isfinite(cand.value)), f"asked {cand.value}")
        lineages.add(cand.heritage["lineage"])
    if kind == "ES":
        check(len(lineages) <= max(nominal or 0, 1) , f"candidates come from {len(lineages)} lineages with a population of size {nominal}") if name.split(",")[1] == "0" else None
    while pending:
        tell(pending.pop(), losses[-1], "tell")
    check(opt.num_tell == len(told), "wrong number of tells")
    x = vec(opt.recommend().value)
    check(np.all(np.isfinite(x)), f"recommended {x}")


def es_selection(ch: Chooser, popsize: int, offsprings: int, only: bool, generations: int, losses: tp.List[float]) -> None:
    """sequential evolution strategy: parents are the best ones of the previous generation"""
    opt = ng.families.EvolutionStrategy(popsize=popsize, offsprings=offsprings, only_offsprings=only)(2, budget=1000)
    opt.parametrization.random_state.seed(12)
    told: tp.Dict[str, float] = {}
    order: tp.List[str] = []
    for k in range(popsize + generations * offsprings):
        cand = opt.ask()
        if k >= popsize:
            parents = [u for u in cand.parents_uids if u in told]
            check(bool(parents), "a mutated candidate has no told parent")
            # elitist: every candidate told at least one generation ago went through a selection
            ref = sorted(told[u] for u in order[: len(order) - offsprings])
            if len(ref) >= popsize and not only:
                worst = max(told[u] for u in parents)
                check(worst <= ref[popsize - 1], f"a parent with loss {worst} was kept while there was {ref[:popsize]}")
        loss = ch.choose(losses, "loss")
        opt.tell(cand, loss)
        told[cand.uid] = loss
        order.append(cand.uid)
        ch.state(tuple(told.values()))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    d = 1 if deep else 0
    two, three = [1.0, 0.0], [1.0, 0.0, 2.0]
    de = [
        dict(name="DE:2", depth=5 + d, losses=two, workers=2, prefix=2),
        dict(name="DE:3", depth=5 + d, losses=two, workers=2, prefix=3),
        dict(name="DE:3", depth=5 + d, losses=two, workers=3, again=deep),
        dict(name="DE:2,twopoints", depth=4 + d, losses=three if deep else two, workers=2, prefix=2, dim=4),
        dict(name="DE:2,parametrization", depth=4 + d, losses=three if deep else two, workers=2, prefix=2),
        dict(name="DE:1", depth=5 + d, losses=two, workers=2, prefix=1),
        dict(name="DE:2", depth=6 + d, losses=[1.0], workers=2, prefix=2),
    ]
    pso = [
        dict(name="PSO:2", depth=5 + d, losses=two, workers=2, prefix=2),
        dict(name="PSO:3", depth=5 + d, losses=two, workers=3),
        dict(name="PSO:1", depth=5 + d, losses=two, workers=2, prefix=1),
        dict(name="PSO:2", depth=6 + d, losses=[1.0], workers=2, prefix=2),
    ]
    es = [
        dict(name="ES:2,0,0,0", depth=5 + d, losses=two, workers=2),
        dict(name="ES:2,0,0,1", depth=5 + d, losses=two, workers=2, prefix=2),
        dict(name="ES:2,2,0,0", depth=5 + d, losses=two, workers=2),
        dict(name="ES:2,3,1,1", depth=5 + d, losses=two, workers=3, prefix=2),
        dict(name="ES:1,2,0,0", depth=5 + d, losses=two, workers=2, prefix=1),
        dict(name="ES:3,2,0,1", depth=5 + d, losses=two, workers=2),
    ]
    others = []
    for name in (
        "CMA DiagonalCMA OldCMA TBPSA NaiveTBPSA cGA OnePlusOne RotatedTwoPointsDE QODE NoisyDE MetaModel SQOPSO "
        "DoubleFastGADiscreteOnePlusOne RecombiningPortfolioDiscreteOnePlusOne NoisyOnePlusOne OptimisticNoisyOnePlusOne NGOpt VastDE"
    ).split():
        if name in ng.optimizers.registry:
            others.append(dict(name=name, depth=3 + d, losses=two, workers=2, prefix=2))
            if name in ("CMA", "DiagonalCMA", "TBPSA", "cGA", "OldCMA", "QODE"):
                others.append(dict(name=name, depth=3 + d if name != "QODE" else 4, losses=two, workers=2, prefix=40 if name == "QODE" else 5))
    sel = [
        dict(popsize=2, offsprings=2, only=False, generations=2, losses=three),
        dict(popsize=1, offsprings=2, only=False, generations=3, losses=two + [3.0]),
        dict(popsize=2, offsprings=3, only=True, generations=2, losses=two),
        dict(popsize=3, offsprings=1, only=False, generations=4, losses=two),
    ]
    return {
        "de": Scenario(interleave, de),
        "pso": Scenario(interleave, pso),
        "es": Scenario(interleave, es),
        "others": Scenario(interleave, others),
        "es_selection": Scenario(es_selection, sel),
    }
