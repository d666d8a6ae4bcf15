"""C21: children and copies of a parameter are independent of their parent."""
import typing as tp

import numpy as np
import nevergrad as ng
from mc import params
from mc.engine import Chooser
from mc.lib import check, snap
from mc.main import Scenario

RULE = (
    "an execution applies one sequence of operations (spawn, copy, sample, set a value or coordinates, set a nested parameter, mutate, recombine, "
    "set the standard deviation, the metadata, a constraint, freeze) to a family of instances of one parametrization; all the sequences up to the "
    "bound are explored, each operation on each member. After each operation, all the other members must be unchanged. A state is a (sequence, target)."
)
ASSUMPTIONS = [
    "the random generator is shared by the whole family by design, hence is not part of the state of a member",
    "constants are their own children by design",
]
BIG = 1e9


def leaves_of(param: tp.Any) -> tp.List[tp.Any]:
    """nested parameters which hold a value, through the public accessors"""
    if isinstance(param, (ng.p.Tuple, ng.p.Dict)):
        items = list(param.values()) if isinstance(param, ng.p.Dict) else list(param)
        return [x for p in items for x in leaves_of(p)]
    if isinstance(param, (ng.p.Choice, ng.p.TransitionChoice)):
        return [param] + leaves_of(param.choices)
    return [param]


class Family:
    def __init__(self, kind: tp.Optional[str], names: tp.Sequence[str]) -> None:
        self.specs = [params.LEAVES[n] for n in names]
        self.kind = kind
        if kind is None:
            self.root: tp.Any = params.build(names[0])
            self.values = list(self.specs[0].values)
        else:
            self.root, _ = params.composite(kind, names)
            self.values = [params.composite_value(kind, [s.values[k % len(s.values)] for s in self.specs]) for k in (0, -1)]
        self.reference = self.root.copy()  # never touched
        self.members: tp.List[tp.Any] = [self.root]
        self.origin: tp.List[tp.Optional[int]] = [None]
        self.frozen: tp.Set[int] = set()

    def snapshot(self, k: int) -> tp.Any:
        p = self.members[k]
        sub = leaves_of(p)
        sigmas = [snap(x.sigma.value) for x in sub if isinstance(x, ng.p.Data)]
        try:
            data = snap(p.get_standardized_data(reference=self.reference))
        except Exception as e:  # pylint: disable=broad-except
            data = repr(e)
        return {
            "value": snap(p.value),
            "nested values": [snap(x.value) for x in sub],
            "coordinates": data,
            "sigma": sigmas,
            "heritage": {str(a): snap(b) for a, b in p.heritage.items()},
            "nested heritage": [{str(a): snap(b) for a, b in x.heritage.items()} for x in sub if not isinstance(x, ng.p.Constant)],
            "loss": p.loss,
            "generation": p.generation,
            "parents": list(p.parents_uids),
            "uid": p.uid,
            "constraints": p.satisfies_constraints(),
            "function": (p.function.deterministic, p.function.proxy, p.function.metrizable),
            "name": p.name,
        }


def operations(family: Family) -> tp.List[tp.Tuple[str, int]]:
    ops = ["spawn", "copy", "sample", "set", "data", "nested", "mutate", "recombine", "sigma", "meta", "constraint", "freeze"]
    return [(op, k) for k in range(len(family.members)) for op in ops]


def frozen_target(fn: tp.Callable[[], tp.Any], what: str) -> None:
    try:
        fn()
    except RuntimeError:
        return
    check(False, f"a frozen parameter accepts {what}", key="frozen")


def apply(family: Family, op: str, k: int, step: int) -> tp.Set[str]:
    """applies the operation, and returns what may change in the member"""
    p = family.members[k]
    frozen = k in family.frozen
    fam = family.members
    if op in ("spawn", "copy", "sample"):
        before = family.snapshot(k)
        new = {"spawn": p.spawn_child, "copy": p.copy, "sample": p.sample}[op]()
        check(new is not p, f"{op} returns the instance itself", key="identity")
        check(type(new) is type(p), f"{op} returns a {type(new)}", key="type")
        fam.append(new)
        family.origin.append(k)
        after = family.snapshot(len(fam) - 1)
        if op != "sample":
            stochastic = any(s.stochastic for s in family.specs)
            same = ["coordinates", "sigma", "name", "function"] + ([] if stochastic else ["value", "nested values"])
            for key in same:
                check(before[key] == after[key], f"{op}: {key} {before[key]} becomes {after[key]}", key="equal")
            check(before["heritage"] == after["heritage"], f"{op}: heritage {before['heritage']} becomes {after['heritage']}", key="heritage")
        check(after["uid"] != before["uid"], f"same uid after {op}", key="uid")
        if op == "spawn":
            check(after["parents"] == [before["uid"]] and after["generation"] == before["generation"] + 1, f"parenthood {after}", key="parenthood")
        if op == "copy":
            check(after["parents"] == before["parents"] and after["generation"] == before["generation"], f"parenthood {after}", key="parenthood")
        if op == "sample":
            ok = after["parents"] == [] and after["generation"] == 0 and after["heritage"].get("lineage") == after["uid"]
            check(ok, f"parenthood of a sample: {after}", key="parenthood")
        check(after["loss"] is None, f"the loss goes to the child ({op})", key="loss")
        return set()
    value = family.values[step % len(family.values)]
    if op == "set":
        if frozen:
            frozen_target(lambda: setattr(p, "value", value), "a value")
            return set()
        p.value = value
        check(params.same_value(value, p.value), f"{value} set as {p.value}", key="set")
        return {"value", "nested values", "coordinates", "constraints"}
    if op == "data":
        data = np.array([0.7 * (-1) ** (i + step) for i in range(family.reference.dimension)])
        if frozen:
            frozen_target(lambda: p.set_standardized_data(data, reference=family.reference), "coordinates")
            return set()
        p.set_standardized_data(data, reference=family.reference)
        return {"value", "nested values", "coordinates", "constraints"}
    if op == "nested":
        sub = [x for x in leaves_of(p) if not isinstance(x, ng.p.Constant)][-1:]
        for x in sub:
            data = np.full(x.dimension, 0.4)
            if frozen:
                frozen_target(lambda x=x, data=data: x.set_standardized_data(data), "coordinates of a nested parameter")
                frozen_target(x.mutate, "mutations of a nested parameter")
            else:
                x.set_standardized_data(data)
        return set() if frozen else {"value", "nested values", "coordinates", "constraints"}
    if op == "mutate":
        if frozen:
            frozen_target(p.mutate, "mutations")
            return set()
        p.mutate()
        return {"value", "nested values", "coordinates", "constraints", "sigma"}
    if op == "recombine":
        others = [fam[0], fam[-1]] if step % 2 else [fam[-1]]
        if frozen:
            frozen_target(lambda: p.recombine(*others), "recombinations")
            return set()
        p.recombine(*others)
        return {"value", "nested values", "coordinates", "constraints", "sigma"}
    if op == "sigma":
        for x in leaves_of(p):
            if isinstance(x, ng.p.Data):
                new_sigma = np.asarray(x.sigma.value) * 0.9
                new_sigma = float(new_sigma) if new_sigma.ndim == 0 else new_sigma
                if frozen and not isinstance(x.sigma, ng.p.Constant):
                    frozen_target(lambda x=x, s=new_sigma: setattr(x.sigma, "value", s), "a standard deviation")
                elif not frozen and not isinstance(x.sigma, ng.p.Constant):
                    x.sigma.value = new_sigma
                elif not frozen and np.size(new_sigma) == 1:
                    x.set_mutation(sigma=float(new_sigma))
        return set() if frozen else {"sigma", "coordinates", "name"}
    if op == "meta":
        p.heritage[f"step{step}"] = step
        p.loss = float(step)
        p.function.deterministic = not p.function.deterministic
        return {"heritage", "nested heritage", "loss", "function"}
    if op == "constraint":
        p.register_cheap_constraint(_Impossible())
        return {"constraints"}
    p.freeze()
    family.frozen.add(k)
    return set()


class _Impossible:
    def __call__(self, value: tp.Any) -> bool:
        return False


def sequences(ch: Chooser, kind: tp.Optional[str], names: tp.Tuple[str, ...], depth: int) -> None:
    family = Family(kind, names)
    family.snapshot(0)
    for step in range(depth):
        options = operations(family)
        if not step:
            options = [o for o in options if o[0] in ("spawn", "copy", "sample")]
        op, k = ch.choose(options, f"operation {step}")
        ch.state(ch.trace)
        before = [family.snapshot(j) for j in range(len(family.members))]
        changed = apply(family, op, k, step)
        for j, b in enumerate(before):
            after = family.snapshot(j)
            for key, val in b.items():
                if j == k and key in changed:
                    continue
                what = "the member itself" if j == k else f"member {j} (from {family.origin[j]})"
                check(after[key] == val, f"{op} on member {k} (from {family.origin[k]}) changes the {key} of {what}: {val} becomes {after[key]}", key=f"{op}-{key}")


def frozen(ch: Chooser, kind: tp.Optional[str], names: tp.Tuple[str, ...]) -> None:
    """everything is refused by a frozen parameter, and accepted by its children"""
    family = Family(kind, names)
    p = family.root
    child_before = p.spawn_child()
    p.freeze()
    reference = family.snapshot(0)
    value = family.values[0]
    sub = [x for x in leaves_of(p) if not isinstance(x, ng.p.Constant)]
    actions: tp.List[tp.Tuple[str, tp.Callable[[], tp.Any]]] = [
        ("a value", lambda: setattr(p, "value", value)),
        ("coordinates", lambda: p.set_standardized_data(np.zeros(p.dimension))),
        ("a mutation", p.mutate),
        ("a recombination", lambda: p.recombine(family.reference)),
    ]
    for x in sub:
        actions.append(("coordinates of a nested parameter", lambda x=x: x.set_standardized_data(np.ones(x.dimension))))
        actions.append(("a nested mutation", x.mutate))
        actions.append(("a nested recombination", lambda x=x: x.recombine(x.copy())))
        actions.append(("a nested value", lambda x=x: setattr(x, "value", x.copy().value)))
        if isinstance(x, ng.p.Data) and not isinstance(x.sigma, ng.p.Constant):
            actions.append(("a standard deviation", lambda x=x: setattr(x.sigma, "value", x.copy().sigma.value)))
        if isinstance(x, ng.p.Data):
            actions.append(("a casting", x.set_integer_casting))
            actions.append(("bounds", lambda x=x: x.set_bounds(-BIG, BIG)))
        if isinstance(x, (ng.p.Choice, ng.p.TransitionChoice)):
            actions.append(("weights", lambda x=x: x.indices.set_standardized_data(np.ones(x.indices.dimension))))
    if isinstance(p, ng.p.Dict) and len(p):
        actions.append(("an item", lambda: p.__setitem__(list(p)[0], 12)))
    if isinstance(p, ng.p.Tuple) and len(p):
        actions.append(("an item", lambda: p.__setitem__(0, 12)))
    constant = all(isinstance(x, ng.p.Constant) for x in leaves_of(p)) and not isinstance(p, (ng.p.Tuple, ng.p.Dict))
    for what, fn in actions:
        ch.state(what)
        if not constant:
            frozen_target(fn, what)
        after = family.snapshot(0)
        for key, val in reference.items():
            check(after[key] == val, f"{what} changes the {key} of a frozen parameter: {val} becomes {after[key]}", key="frozen-changed")
    for new in (child_before, p.spawn_child(), p.copy(), p.sample()):
        new.value = value
        check(params.same_value(value, new.value), f"{value} set as {new.value}", key="child")
        new.set_standardized_data(np.zeros(p.dimension))
        new.mutate()
        new.recombine(family.reference)
        for x in leaves_of(new):
            x.mutate()
    check(family.snapshot(0) == reference, "the frozen parameter was modified through its children", key="frozen-child")


def arrays(ch: Chooser, how: str, inplace: str) -> None:
    """no array is shared between relatives: modifying a value in place cannot reach another member"""
    init = np.array([1.0, 2.0])
    p: tp.Any = ng.p.Array(init=init)
    if "bounds" in how:
        p.set_bounds(-10, 10)
    if "tuple" in how:
        p = ng.p.Tuple(p, ng.p.Array(shape=(2,)))
    p.random_state = np.random.RandomState(1)
    child = {"spawn": p.spawn_child, "copy": p.copy}[how.split("-")[0]]()
    grand = child.spawn_child()
    family = [p, child, grand]
    target = family[int(inplace)]
    before = [snap(x.value) for x in family]
    ch.state("arrays")
    val = target.value
    (val[0] if isinstance(val, tuple) else val)[0] = 7.0
    for k, x in enumerate(family):
        if x is not target:
            check(snap(x.value) == before[k], f"value {before[k]} of member {k} becomes {snap(x.value)}", key="shared")


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    thorough = tier == "thorough"
    names = [n for n in params.LEAVES if n != "constant"]
    skip = {"choice-one"}
    single = [{"kind": None, "names": (n,), "depth": 2} for n in names if n not in skip]
    core = [n for n in params.CORE if n != "constant"]
    few = ["scalar", "array-bounds-init", "array-mutable", "choice-param", "transition-param", "choice-rep"]
    deep: tp.List[tp.Dict[str, tp.Any]] = [{"kind": None, "names": (n,), "depth": 3} for n in (core if thorough else few)]
    comp = [
        {"kind": kind, "names": (core[i], core[(i + s) % len(core)]), "depth": 2}
        for i in range(len(core))
        for k, kind in enumerate(params.KINDS)
        for s in ((1, 4, 8) if thorough else (4,))
        if thorough or (i + k) % 3 == 0
    ]
    comp3 = [{"kind": kind, "names": ("array-mutable", "choice-param", "log-bounds"), "depth": 3} for kind in (params.KINDS if thorough else ["deep"])]
    fro = [{"kind": None, "names": (n,)} for n in names if n not in skip]
    fro += [{"kind": kind, "names": (core[i], core[(i + 5) % len(core)])} for i in range(len(core)) for kind in params.KINDS]
    arr = [{"how": f"{h}{b}{t}", "inplace": str(k)} for h in ("spawn", "copy") for b in ("", "-bounds") for t in ("", "-tuple") for k in range(3)]
    return {
        "sequences": Scenario(sequences, single + comp + deep + comp3),
        "frozen": Scenario(frozen, fro),
        "arrays": Scenario(arrays, arr),
    }
