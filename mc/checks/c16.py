"""C16: composite optimizers route every ask and tell to the right member."""
import itertools
import math
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.optimization import base
from nevergrad.optimization import optimizerlib as oplib
from mc.engine import Chooser
from mc.lib import check, close
from mc.main import Scenario

RULE = (
    "an execution composes members written for the check, which propose numbered points and record everything they receive, for an explored configuration (number and kinds of members, shares of the budget, workers), "
    "and drives the composite through an explored sequence of asks, tells of any pending candidate, and tells of unknown candidates; what each member received is compared after each operation to what is announced. "
    "A state is the list of what each member received."
)
ASSUMPTIONS = [
    "members are independent of the losses: their choices are covered by other properties",
    "the random shift of rescaled optimizers is not covered",
    "sequential members of portfolios are only required not to be asked twice when tells arrive in the order of asks",
]

MEMBERS: tp.List[tp.Any] = []


class Member(base.Optimizer):
    """Proposes numbered points, and records everything"""

    refuses = False

    def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
        super().__init__(parametrization, budget=budget, num_workers=num_workers)
        self.index = len(MEMBERS)
        self.received: tp.List[tp.Tuple[str, str, float]] = []
        self.proposed: tp.List[tp.Any] = []
        MEMBERS.append(self)

    def _internal_ask_candidate(self) -> tp.Any:
        data = np.array([0.01 * (1 + self.index) + 0.1 * (1 + self.num_ask) + 0.001 * k for k in range(self.dimension)])
        cand = self.parametrization.spawn_child().set_standardized_data(data)
        self.proposed.append((cand.uid, data))
        return cand

    def _internal_tell_candidate(self, candidate: tp.Any, loss: float) -> None:
        self.received.append(("asked", candidate.uid, loss))

    def _internal_tell_not_asked(self, candidate: tp.Any, loss: float) -> None:
        if self.refuses:
            raise errors.TellNotAskedNotSupportedError
        self.received.append(("other", candidate.uid, loss))


def adopt(members: tp.Any) -> None:
    """Forgets about the instances made for checking the configuration"""
    MEMBERS[:] = list(members)
    for k, m in enumerate(MEMBERS):
        m.index = k


class Sequential(Member):
    no_parallelization = True


class Refusing(Member):
    refuses = True


KINDS: tp.Dict[str, tp.Any] = {"P": Member, "S": Sequential, "R": Refusing}


def drive(ch: Chooser, opt: tp.Any, depth: int, fifo: bool, on_ask: tp.Any, on_tell: tp.Any, width: int = 2, others: bool = True) -> None:
    pending: tp.List[tp.Any] = []
    trace: tp.List[tp.Any] = []
    for step in range(depth):
        actions: tp.List[tp.Any] = []
        if len(pending) < width:
            actions.append("ask")
        actions += [("tell", k) for k in range(1 if fifo else len(pending)) if pending]
        if others:
            actions.append("other")
        act = ch.choose(actions, "action")
        trace.append(act)
        loss = 10.0 - step if ch.flag("better") else 10.0 + step
        if act == "ask":
            cand = opt.ask()
            pending.append(cand)
            on_ask(cand, trace)
        else:
            asked = act != "other"
            cand = pending.pop(act[1]) if asked else opt.parametrization.spawn_child().set_standardized_data([0.7 + 0.01 * step] * opt.dimension)
            try:
                opt.tell(cand, loss)
                refused = False
            except errors.TellNotAskedNotSupportedError:
                refused = True
                check(not asked, f"tell refused after {trace}", key="refused")
            on_tell(cand, loss, asked, refused, trace)
            if refused:
                ch.state(("refused", tuple(map(str, trace))))
                return
        # per member, without identifiers
        ch.state(tuple((m.num_ask, tuple((r[0], r[2]) for r in m.received)) for m in MEMBERS))


def chaining(ch: Chooser, shares: tp.Tuple[tp.Any, ...], budget: tp.Optional[int], workers: int, crossing: bool, depth: int) -> None:
    warnings.simplefilter("ignore")
    MEMBERS.clear()
    param = ng.p.Array(shape=(3,))
    param.random_state.seed(12)
    opt = ng.families.Chaining([Member] * (len(shares) + 1), list(shares), no_crossing=not crossing)(param, budget=budget, num_workers=workers)
    adopt(opt.optimizers)
    meaning = {"num_workers": workers, "dimension": 3}
    if budget is not None:
        meaning.update({"half": budget // 2, "third": budget // 3, "fourth": budget // 4, "tenth": budget // 10, "sqrt": int(math.sqrt(budget)), "most": budget * 4 // 5, "equal": budget // (len(shares) + 1)})
    lengths = [max(1, meaning[s]) if isinstance(s, str) else s for s in shares]
    check([m.budget for m in MEMBERS[:-1]] == lengths, f"budgets {[m.budget for m in MEMBERS]} instead of {lengths} for shares {shares}, budget {budget}", key="budgets")
    if budget is not None:
        check(MEMBERS[-1].budget >= budget - sum(lengths), f"last budget {MEMBERS[-1].budget} of {budget} after {lengths}", key="budgets")
    check(all(m.num_workers == workers for m in MEMBERS), "workers", key="workers")
    limits = list(itertools.accumulate(lengths))
    state = {"asks": 0, "tells": 0}
    owner: tp.Dict[str, int] = {}
    expected: tp.List[tp.List[tp.Any]] = [[] for _ in MEMBERS]

    def on_ask(cand: tp.Any, trace: tp.Any) -> None:
        who = sum(state["asks"] >= lim for lim in limits)
        state["asks"] += 1
        owner[cand.uid] = who
        asks = [m.num_ask for m in MEMBERS]
        check(MEMBERS[who].proposed and MEMBERS[who].proposed[-1][0] == cand.uid and sum(asks) == state["asks"], f"ask {state['asks']} was not made to member {who}: {asks} after {trace}", key="ask")

    def on_tell(cand: tp.Any, loss: float, asked: bool, refused: bool, trace: tp.Any) -> None:
        check(not refused, f"refused after {trace}", key="refused")
        for k in range(len(MEMBERS)):
            turn = k == len(MEMBERS) - 1 or state["tells"] < limits[k]
            if turn and (crossing or owner.get(cand.uid) == k):
                expected[k].append(("asked" if owner.get(cand.uid) == k else "other", cand.uid, loss))
        state["tells"] += 1
        for m in MEMBERS:
            check(m.received == expected[m.index], f"member {m.index} received {[r[::2] for r in m.received]} instead of {[r[::2] for r in expected[m.index]]} after {trace}, limits {limits}", key="tell")

    drive(ch, opt, depth, False, on_ask, on_tell)


def portfolio(ch: Chooser, kinds: str, budget: int, workers: int, ratio: tp.Optional[float], depth: int, fifo: bool) -> None:
    warnings.simplefilter("ignore")
    MEMBERS.clear()
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(12)
    num = len(kinds)
    opt = ng.families.ConfPortfolio(optimizers=[KINDS[k] for k in kinds], warmup_ratio=ratio)(param, budget=budget, num_workers=workers)
    check(len(opt.optims) == num and all(isinstance(m, Member) for m in opt.optims), "members", key="members")
    adopt(opt.optims)
    check(sum(m.num_workers for m in MEMBERS) >= workers or "S" in kinds, f"{[m.num_workers for m in MEMBERS]} workers for {workers}", key="workers")
    total = budget if ratio is None else ratio * budget
    check(sum(m.budget for m in MEMBERS) >= math.floor(total), f"budgets {[m.budget for m in MEMBERS]} for {total} evaluations", key="budgets")
    owner: tp.Dict[str, int] = {}
    best: tp.List[tp.Any] = [math.inf, None]
    before = [0] * num
    suggested: tp.Set[str] = set()
    state = {"asks": 0, "tells": 0, "chosen": None}
    expected: tp.List[tp.List[tp.Any]] = [[] for _ in MEMBERS]
    waiting: tp.List[tp.Set[str]] = [set() for _ in MEMBERS]

    def on_ask(cand: tp.Any, trace: tp.Any) -> None:
        who = [m.index for m in MEMBERS if m.num_ask != before[m.index]]
        before[:] = [m.num_ask for m in MEMBERS]
        check(len(who) == 1, f"candidate of members {who} after {trace}", key="ask")
        owner[cand.uid] = who[0]
        last = MEMBERS[who[0]].proposed
        if not (last and last[-1][0] == cand.uid):  # the first point of some members is suggested to them
            check(who[0] > 1 and MEMBERS[who[0]].num_ask == 1, f"a candidate of member {who[0]} is not its own after {trace}", key="ask")
            suggested.add(cand.uid)
        warm = ratio is None or state["tells"] <= int(ratio * budget)
        if not warm and state["chosen"] is None and best[1] is not None and (workers == 1 or MEMBERS[best[1]].num_workers > 1):
            state["chosen"] = best[1]
        if state["chosen"] is not None:
            check(who[0] == state["chosen"], f"member {who[0]} was asked after the warmup instead of the best one, {state['chosen']}: {trace}", key="warmup")
        elif workers == 1:
            check(who[0] == state["asks"] % num, f"ask {state['asks']} was made to member {who[0]}: {trace}", key="turn")
        else:
            asks = [m.num_ask for m in MEMBERS]
            cycle = [m.num_workers for m in MEMBERS]
            check(max(a / c for a, c in zip(asks, cycle)) - min(a / c for a, c in zip(asks, cycle)) <= 1, f"asks {asks} with {cycle} workers: {trace}", key="share")
        state["asks"] += 1
        if fifo and kinds[who[0]] == "S" and state["chosen"] is None:
            check(not waiting[who[0]], f"sequential member {who[0]} was asked before its tell: {trace}", key="sequential")
        waiting[who[0]].add(cand.uid)
        check(sum(m.num_ask for m in MEMBERS) == state["asks"], "several members were asked", key="ask")

    def on_tell(cand: tp.Any, loss: float, asked: bool, refused: bool, trace: tp.Any) -> None:
        active = [k for k in range(num) if state["chosen"] is None or state["chosen"] == k]
        count = 0
        for k in active:
            own = owner.get(cand.uid) == k
            if own or kinds[k] != "R":
                expected[k].append(("asked" if own and cand.uid not in suggested else "other", cand.uid, loss))
                count += 1
        check(refused == (count == 0), f"refused: {refused} although {count} members accept: {trace}", key="refused")
        if asked:
            waiting[owner[cand.uid]].discard(cand.uid)
        if not refused:
            state["tells"] += 1
            if loss < best[0]:
                best[:] = [loss, owner.get(cand.uid)]
        for m in MEMBERS:
            check(m.received == expected[m.index], f"member {m.index} received {[r[::2] for r in m.received]} instead of {[r[::2] for r in expected[m.index]]} after {trace}", key="tell")

    drive(ch, opt, depth, fifo, on_ask, on_tell, width=workers, others=ratio is None)


def parameters(kind: str) -> tp.Any:
    if kind == "array":
        return ng.p.Array(shape=(5,))
    if kind == "matrix":
        return ng.p.Array(shape=(2, 3))
    if kind == "mixed":
        return ng.p.Instrumentation(ng.p.Array(shape=(2,)), z=ng.p.Scalar(), a=ng.p.Dict(y=ng.p.Array(shape=(3,)), x=ng.p.Scalar()))
    return ng.p.Tuple(ng.p.Scalar(), ng.p.Choice([ng.p.Scalar(), 2.0, ng.p.Array(shape=(2,))]))


def split(ch: Chooser, kind: str, conf: tp.Dict[str, tp.Any], depth: int) -> None:
    warnings.simplefilter("ignore")
    MEMBERS.clear()
    param = parameters(kind)
    param.random_state.seed(12)
    dim = param.dimension
    family = ng.families.ConfSplitOptimizer(multivariate_optimizer=Member, monovariate_optimizer=Sequential, **conf)
    opt = family(param, budget=20, num_workers=1)
    adopt(opt.optims)
    sizes = [m.dimension for m in MEMBERS]
    if "num_vars" in conf:
        target: tp.Any = conf["num_vars"]
    elif "max_num_vars" in conf:
        full, rest = divmod(dim, conf["max_num_vars"])
        target = [conf["max_num_vars"]] * full + ([rest] if rest else [])
    elif "num_optims" in conf:
        n = min(dim, conf["num_optims"])
        target = [dim // n + (k < dim % n) for k in range(n)]
    else:
        target = sizes if kind in ("mixed", "choice") else [dim // 2 + dim % 2, dim // 2]
    check(sizes == target and sum(sizes) == dim, f"variables {sizes} instead of {target} for {kind}, {conf}", key="sizes")
    check(all(isinstance(m, Sequential) == (m.dimension == 1) for m in MEMBERS), "kinds of members", key="kinds")
    starts = [sum(sizes[:k]) for k in range(len(sizes))]
    asks: tp.Dict[str, tp.Any] = {}
    expected: tp.List[tp.List[tp.Any]] = [[] for _ in MEMBERS]

    def on_ask(cand: tp.Any, trace: tp.Any) -> None:
        data = cand.get_standardized_data(reference=opt.parametrization)
        count = len(asks) + 1
        for m, start in zip(MEMBERS, starts):
            part = data[start : start + m.dimension]
            uid, own = m.proposed[-1]
            check(m.num_ask == count, f"member {m.index} was asked {m.num_ask} times after {trace}", key="ask")
            check(close(part, own), f"member {m.index} proposed {own}, but its part is {part}", key="assembly")
            asks.setdefault(cand.uid, []).append(uid)

    def on_tell(cand: tp.Any, loss: float, asked: bool, refused: bool, trace: tp.Any) -> None:
        data = cand.get_standardized_data(reference=opt.parametrization)
        for m, start in zip(MEMBERS, starts):
            check(len(m.received) == len(expected[m.index]) + 1, f"member {m.index} received {len(m.received)} tells after {trace}", key="tell")
            how, uid, value = m.received[-1]
            check(value == loss, f"loss {value} instead of {loss}", key="tell")
            if asked:
                check(how == "asked" and uid == asks[cand.uid][m.index], f"member {m.index} received another candidate after {trace}", key="tell")
            else:
                check(how == "other", f"member {m.index}: {how}", key="tell")
                check(close(m.last_point, data[start : start + m.dimension]), f"member {m.index} received {m.last_point} instead of {data[start: start + m.dimension]}", key="part")
            expected[m.index].append(uid)

    for m in MEMBERS:
        original = m._internal_tell_not_asked

        def wrapped(candidate: tp.Any, loss: float, m: tp.Any = m, original: tp.Any = original) -> None:
            m.last_point = candidate.get_standardized_data(reference=m.parametrization)
            original(candidate, loss)

        m._internal_tell_not_asked = wrapped
    drive(ch, opt, depth, False, on_ask, on_tell)


def rescaled(ch: Chooser, scale: float, depth: int) -> None:
    warnings.simplefilter("ignore")
    MEMBERS.clear()
    param = ng.p.Array(shape=(3,))
    opt = oplib.Rescaled(base_optimizer=Member, scale=scale)(param, budget=20, num_workers=2)
    adopt([opt._optimizer])
    member = MEMBERS[0]
    asks: tp.Dict[str, str] = {}
    count = [0]
    member.last_point = None
    original = member._internal_tell_not_asked

    def wrapped(candidate: tp.Any, loss: float) -> None:
        member.last_point = candidate.get_standardized_data(reference=param)
        original(candidate, loss)

    member._internal_tell_not_asked = wrapped

    def on_ask(cand: tp.Any, trace: tp.Any) -> None:
        uid, own = member.proposed[-1]
        asks[cand.uid] = uid
        check(member.num_ask == len(asks), "asks", key="ask")
        check(close(cand.get_standardized_data(reference=param), scale * own), f"{own} was scaled by {scale} to {cand.value}", key="scale")

    def on_tell(cand: tp.Any, loss: float, asked: bool, refused: bool, trace: tp.Any) -> None:
        count[0] += 1
        check(len(member.received) == count[0], f"{len(member.received)} tells", key="tell")
        how, uid, value = member.received[-1]
        check(value == loss and how == ("asked" if asked else "other"), f"received {how} {value} instead of {loss}", key="tell")
        if asked:
            check(uid == asks[cand.uid], f"another candidate was told after {trace}", key="tell")
        else:
            check(close(member.last_point * scale, cand.get_standardized_data(reference=param)), f"{cand.value} was told as {member.last_point} with scale {scale}", key="inverse")

    drive(ch, opt, depth, False, on_ask, on_tell)


ANNOUNCED = ["MultiBFGS", "LogMultiBFGS", "SqrtMultiBFGS", "MultiCobyla", "MultiSQP", "LogMultiBFGSPlus", "SqrtMultiBFGSPlus", "MultiBFGSPlus", "MultiCobylaPlus", "MultiSQPPlus", "MultiDiscrete", "Portfolio", "ParaPortfolio", "MultiCMA", "TripleCMA", "BAR", "ASCMADEthird"]
DEFAULT = ["MetaCMA", "TwoPointsDE", "ScrHammersleySearch"]


def announced(ch: Chooser) -> None:
    """Portfolios hold what they announce"""
    warnings.simplefilter("ignore")
    name = ch.choose(ANNOUNCED, "name")
    workers = ch.choose([1, 2, 4], "workers")
    opt = ng.optimizers.registry[name](ng.p.Array(shape=(2,)), budget=100, num_workers=workers)
    members = [m.name for m in opt.optims]
    conf = ng.optimizers.registry[name]
    if name == "Portfolio":
        check(members == DEFAULT, f"members {members}", key="default")
    elif isinstance(conf, ng.families.ConfPortfolio):
        check(len(members) == len(conf.optimizers), f"{name}: {members}", key=f"{name}:members")
    else:
        kind = next((k for k in ("BFGS", "obyla", "SQP", "CMA") if k in name), None)
        check(kind is None or any(kind in m for m in members if members != DEFAULT), f"{name} holds none of the members it announces: {members} for {workers} workers", key=f"{name}:members")
    ch.state((name, workers, len(members)))


def no_crossing(ch: Chooser) -> None:
    MEMBERS.clear()
    opt = ng.families.ConfPortfolio(optimizers=[Member, Member], no_crossing=True)(2, budget=10, num_workers=2)
    adopt(opt.optims)
    first, second = opt.ask(), opt.ask()
    for cand in (first, second) if ch.flag("order") else (second, first):
        opt.tell(cand, 1.0)
    check(all(len(m.received) == 1 for m in MEMBERS), f"members received {[len(m.received) for m in MEMBERS]} tells without crossing", key="no-crossing")
    ch.state("done")


def usage(ch: Chooser) -> None:
    case = ch.choose(["initialized members", "another parametrization", "warmup without budget", "wrong number of shares", "wrong variables"], "case")
    param = ng.p.Array(shape=(3,))
    MEMBERS.clear()
    if case == "initialized members":
        own = [Member(param, budget=5, num_workers=1), Member(param, budget=5, num_workers=1)]
        opt = ng.families.ConfPortfolio(optimizers=own)(param, budget=10, num_workers=1)
        check([id(m) for m in opt.optims] == [id(m) for m in own], "members", key="initialized")
        ch.state(case)
        return
    try:
        if case == "another parametrization":
            ng.families.ConfPortfolio(optimizers=[Member(3, budget=5), Member(param, budget=5)])(param, budget=10)
        elif case == "warmup without budget":
            ng.families.ConfPortfolio(optimizers=[Member, Member], warmup_ratio=0.5)(param)
        elif case == "wrong number of shares":
            ng.families.Chaining([Member, Member], [3, 4])(param, budget=10)
        else:
            ng.families.ConfSplitOptimizer(num_vars=[1, 1], multivariate_optimizer=Member, monovariate_optimizer=Member)(param, budget=10)
        check(False, f"{case} was accepted", key="accepted")
    except (ValueError, AssertionError, TypeError):
        pass
    ch.state(case)


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier != "quick"
    chains = [dict(shares=s, budget=b, workers=w, crossing=c, depth=(8 if deep else 6)) for s in ((1,), (2,), (1, 2), (2, 1, 1)) for b in (None, 6) for w in (1, 3) for c in (True, False)]
    chains += [dict(shares=s, budget=b, workers=w, crossing=True, depth=(6 if deep else 4)) for s in (("half",), ("third", "third"), ("num_workers",), ("dimension",), ("sqrt", "tenth"), ("fourth", 2), ("equal", "equal"), ("tenth", "most")) for b in (7, 10, 40) for w in (1, 2)]
    folios = []
    for kinds in ("PP", "PPP", "PS", "SS", "PSP", "PR", "RR", "PPS"):
        for w in (1, 2, 3):
            if set(kinds) == {"S"} and w > len(kinds):
                continue
            folios.append(dict(kinds=kinds, budget=10, workers=w, ratio=None, depth=(8 if deep else 6), fifo="S" in kinds))
    for kinds in ("PP", "PPP"):
        for w in (1, 2, 4):
            for ratio in (0.1, 0.2, 0.5):
                folios.append(dict(kinds=kinds, budget=10, workers=w, ratio=ratio, depth=(11 if deep else 8), fifo=False))
    confs: tp.List[tp.Tuple[str, tp.Dict[str, tp.Any]]] = [("array", {}), ("array", {"num_vars": [2, 3]}), ("array", {"num_vars": [1, 1, 3]}), ("matrix", {}), ("matrix", {"num_vars": [1, 5]}), ("mixed", {}), ("choice", {}), ("mixed", {"num_optims": 3})]
    confs += [("array", {"num_optims": k}) for k in (1, 2, 3, 4, 5, 7)] + [("array", {"max_num_vars": k}) for k in (1, 2, 3, 4, 5)]
    return {
        "chaining": Scenario(chaining, chains, max_dev=5 if deep else 3),
        "portfolio": Scenario(portfolio, folios, max_dev=6 if deep else 3),
        "split": Scenario(split, [dict(kind=k, conf=c, depth=(6 if deep else 5)) for k, c in confs], max_dev=4 if deep else 3),
        "rescaled": Scenario(rescaled, [dict(scale=s, depth=6) for s in (0.5, 1.0, 3.0, -2.0)], max_dev=4),
        "announced": Scenario(announced, [{}]),
        "no_crossing": Scenario(no_crossing, [{}]),
        "usage": Scenario(usage, [{}]),
    }
