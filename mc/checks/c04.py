"""C04: ledger of asks, tells and suggestions for every interleaving."""
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from mc.engine import Chooser
from mc.lib import check, same, vec
from mc.main import Scenario

RULE = (
    "an execution is a sequence of `depth` operations on the real optimizer among ask, tell of any pending candidate, tell again of an already told one, "
    "tell of a foreign candidate, suggest; a state is the abstract ledger (pending, told, stacked suggestions, counters) after each operation."
)
ASSUMPTIONS = ["losses are finite here (see C17 for the others)"]


class Plain(ng.optimizers.base.Optimizer):
    def __init__(self, *args: tp.Any, **kwargs: tp.Any) -> None:
        super().__init__(*args, **kwargs)
        self.got: tp.List[tp.Any] = []

    def _internal_ask(self) -> tp.Any:
        return [0.5 + float(self.num_ask)] * self.dimension

    def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
        self.got.append(("asked", candidate.uid, loss))

    def _internal_tell_not_asked(self, candidate: tp.Any, loss: float) -> None:
        self.got.append(("not asked", candidate.uid, loss))


def params(kind: str) -> tp.Any:
    if kind == "array":
        return ng.p.Array(shape=(2,))
    if kind == "bounded":
        return ng.p.Array(init=[0.0, 1.0]).set_bounds(-4, 4)
    if kind == "instru":
        return ng.p.Instrumentation(ng.p.Scalar(), "cst", y=ng.p.Choice([1, 2, 3]))
    raise NotImplementedError


def new_value(kind: str, k: int) -> tp.Any:
    if kind in ("array", "bounded"):
        return np.array([0.25 * k - 2, 1.0 + 0.5 * k])
    return ((0.5 * k, "cst"), dict(y=1 + k % 3))


def make(name: str, param: tp.Any, workers: int, budget: tp.Optional[int]) -> tp.Any:
    cls = Plain if name == "Plain" else ng.optimizers.registry[name]
    opt = cls(param, budget=budget, num_workers=workers)
    param.random_state.seed(12)
    return opt


def ledger(
    ch: Chooser, optimizer: str, kind: str, depth: int, workers: int = 4, budget: tp.Optional[int] = 20, moo: bool = False
) -> None:
    param = params(kind)
    opt = make(optimizer, param, workers, budget)
    pending: tp.List[tp.Any] = []
    told: tp.List[tp.Any] = []
    generated: tp.Dict[str, tp.Any] = {}  # waiting for their tell as "asked"
    uids: tp.Set[str] = set()
    stack: tp.List[tp.Any] = []
    events: tp.List[tp.Any] = []
    opt.register_callback("ask", lambda o: events.append("ask"))
    opt.register_callback("tell", lambda o, c, loss: events.append((c.uid, loss)))
    asks = tells = foreign = counter = 0
    expected: tp.List[tp.Any] = []
    supports = True
    for step in range(depth):
        ops = ["ask", "suggest", "foreign"]
        ops += [f"tell{k}" for k in range(min(len(pending), 3))]
        if told:
            ops.append("again")
        op = ch.choose(ops, "op")
        before = len(events)
        if op == "ask":
            cand = opt.ask()
            asks += 1
            check(events[before:] == ["ask"], f"ask callback called {len(events) - before} times")
            if stack:
                value = stack.pop()
                check(same(_plain(cand.value), _plain(value)), f"suggested {value} but asked {cand.value}")
                check(cand.uid not in uids, "a suggestion is a previously asked candidate")
            else:
                check(cand.uid not in uids, "the same candidate is asked twice")
                generated[cand.uid] = cand
            uids.add(cand.uid)
            check(all(cand is not c for c in pending + told), "the same object is asked twice")
            try:
                cand.value = cand.value
            except RuntimeError:
                pass
            else:
                check(False, "an asked candidate can be modified")
            pending.append(cand)
        elif op == "suggest":
            counter += 1
            value = new_value(kind, counter)
            if kind == "instru":
                opt.suggest(*value[0], **value[1])
            else:
                opt.suggest(value)
            stack.append(value)
        else:
            if op == "foreign":
                counter += 1
                cand = param.spawn_child(new_value=new_value(kind, counter))
            elif op == "again":
                cand = told[ch.choose(len(told), "which", free=True)] if step < 4 else told[0]
            else:
                cand = pending.pop(int(op[4:]))
            loss = float((3 * step + 2) % 5)
            asked = cand.uid in generated
            try:
                opt.tell(cand, [loss, 1.0 - loss] if moo else loss)
            except errors.TellNotAskedNotSupportedError:
                check(not asked, "an asked candidate is refused as if it had not been asked")
                supports = False
            else:
                tells += 1
                if asked:
                    del generated[cand.uid]
                else:
                    foreign += 1
                check(len(events) == before + 1, f"tell callback called {len(events) - before} times")
                if moo:
                    check(vec(cand.losses) == (loss, 1.0 - loss), f"losses {cand.losses}")
                else:
                    check(events[-1] == (cand.uid, loss), f"tell callback received {events[-1]}")
                    check(cand.loss == loss, f"loss of the candidate is {cand.loss} instead of {loss}")
                    check(vec(cand.losses) == (loss,), f"losses of the candidate are {cand.losses}")
                expected.append(("asked" if asked else "not asked", cand.uid))
                if cand not in told:
                    told.append(cand)
        check(opt.num_ask == asks, f"num_ask={opt.num_ask} after {asks} asks")
        check(opt.num_tell == tells, f"num_tell={opt.num_tell} after {tells} tells")
        check(
            opt.num_tell_not_asked == foreign,
            f"num_tell_not_asked={opt.num_tell_not_asked} after {foreign} tells of candidates which were not asked",
        )
        if tells:
            check(opt.num_objectives == (2 if moo else 1), f"num_objectives={opt.num_objectives}")
        ch.state(asks, tells, foreign, len(pending), len(stack), len(told), len(generated), supports)
    if isinstance(opt, Plain):
        check([g[:2] for g in opt.got] == expected, "the algorithm does not receive the tells as they are")
    # suggestions left come out in reverse order, then generation goes on
    while stack:
        value = stack.pop()
        check(same(_plain(opt.ask().value), _plain(value)), "a suggestion is lost or out of order")


def _plain(value: tp.Any) -> tp.Any:
    if isinstance(value, tuple):
        return tuple(_plain(v) for v in value)
    if isinstance(value, dict):
        return {k: _plain(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return tuple(round(float(v), 10) for v in value)
    if isinstance(value, float):
        return round(value, 10)
    return value


FAMILIES = [
    "OnePlusOne", "DiscreteOnePlusOne", "OptimisticNoisyOnePlusOne", "RecombiningPortfolioOptimisticNoisyDiscreteOnePlusOne",
    "DE", "TwoPointsDE", "QODE", "PSO", "RealSpacePSO", "ES", "RecES", "CMA", "DiagonalCMA", "EDA", "TBPSA", "NaiveTBPSA",
    "RandomSearch", "HaltonSearch", "LHSSearch", "cGA", "NoisyBandit", "NGOpt", "NGOpt4", "Shiwa", "MetaModel", "ParaPortfolio",
    "ChainNaiveTBPSACMAPowell", "SplitQODE", "RescaledCMA", "IsoEMNA", "MultiCMA", "CMandAS2",
    "LogNormalDiscreteOnePlusOne", "TinyLhsDE", "ASCMADEthird", "CMAL", "RotatedTwoPointsDE", "DiscreteBSOOnePlusOne",
]


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    names = [n for n in FAMILIES if n in ng.optimizers.registry and not ng.optimizers.registry[n].no_parallelization]
    plain = [dict(optimizer="Plain", kind=k, depth=7 if deep else 6) for k in ("array", "instru")]
    plain += [dict(optimizer="Plain", kind="array", depth=5, moo=True), dict(optimizer="Plain", kind="array", depth=5, budget=None)]
    fam = [
        dict(optimizer=n, kind=k, depth=5 if deep else 4, workers=w)
        for n in names
        for k in ("array", "instru")
        for w in (4,)
    ]
    fam += [dict(optimizer=n, kind="bounded", depth=5 if deep else 4, workers=2) for n in names]
    moo = [dict(optimizer=n, kind="array", depth=4, moo=True) for n in ("DE", "NGOpt", "OnePlusOne", "CMA", "ES", "PSO")]
    return {
        "base": Scenario(ledger, plain),
        "families": Scenario(ledger, fam),
        "multiobjective": Scenario(ledger, moo),
    }
