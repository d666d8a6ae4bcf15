"""C25: splitting a benchmark in chunks runs every experiment exactly once."""
import contextlib
import io
import itertools
import shutil
import tempfile
import typing as tp
from pathlib import Path

import pandas as pd
import nevergrad as ng
from nevergrad.benchmark import core
from nevergrad.benchmark.xpbase import Experiment
from nevergrad.functions import ExperimentFunction
from mc.engine import Chooser
from mc.lib import check
from mc.main import Scenario

RULE = (
    "an execution is one (size of plan, repetitions, cap, seed, tree of splits) compared with the unsplit enumeration, or one run of a chunk interrupted at "
    "chosen calls (of the objective, of the final evaluation, of the processing function) and resumed, or one history of saves with a failing one; all are "
    "enumerated within the bounds. A state is the set of experiments of each chunk, or the summaries."
)
ASSUMPTIONS = ["plans are generators which give the same experiments for the same seed", "interruptions are KeyboardInterrupt raised by the objective or by the processing function"]

CALLS: tp.List[tp.Any] = []
HOOK: tp.List[tp.Callable[[tp.Any], None]] = []


class Func(ExperimentFunction):
    def __init__(self, number: int) -> None:
        super().__init__(self._func, ng.p.Scalar(lower=0, upper=1).set_name(""))
        self.number = number

    def _func(self, x: float) -> float:
        CALLS.append(("call", self.number))
        for hook in HOOK:
            hook(("call", self.number))
        return self.number + x

    def evaluation_function(self, *recommendations: tp.Any) -> float:
        CALLS.append(("eval", self.number))
        for hook in HOOK:
            hook(("eval", self.number))
        return 100.0 + self.number


@contextlib.contextmanager
def plan(number: int, budget: int = 2, batch_mode: bool = True, workers: int = 1) -> tp.Iterator[None]:
    def mc_plan(seed: tp.Optional[int] = None) -> tp.Iterator[Experiment]:
        for k in range(number):
            xpseed = None if seed is None else 100 * seed + k
            yield Experiment(Func(k), optimizer="RandomSearch", budget=budget, num_workers=workers, seed=xpseed, batch_mode=batch_mode)

    core.registry.unregister("mc_plan")
    core.registry.register(mc_plan)
    CALLS.clear()
    HOOK.clear()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        HOOK.clear()
        core.registry.unregister("mc_plan")


def ident(item: tp.Tuple[int, Experiment]) -> tp.Tuple[int, int, tp.Any]:
    return item[0], item[1].get_description()["number"], item[1].seed


def reference(number: int, repetitions: int, cap: tp.Optional[int], seed: tp.Optional[int]) -> tp.List[tp.Any]:
    each = number if cap is None else min(number, max(1, cap))
    out = []
    for r in range(repetitions):
        for k in range(each):
            out.append((len(out), k, None if seed is None else 100 * (seed + r) + k))
    return out


def chunks(ch: Chooser, number: int, splits: tp.List[int]) -> None:
    repetitions = ch.choose([1, 2, 3] if number < 3 else [1, 2], "repetitions")
    cap = ch.choose([None, 2, number + 3], "cap")
    seed = ch.choose([12, None] if number < 4 else [12], "seed")
    with plan(number):
        bench = core.BenchmarkChunk("mc_plan", repetitions=repetitions, seed=seed, cap_index=cap)
        ref = reference(number, repetitions, cap, seed)
        got = [ident(x) for x in bench]
        check(got == ref, f"unsplit: {got} instead of {ref}", key="unsplit")
        check(len(bench) == len(ref), f"length {len(bench)} instead of {len(ref)}", key="length")
        leaves = [(bench, ref)]
        for level in range(2):
            n = ch.choose(splits, f"split at level {level}")
            which = ch.choose(["first", "last", "all"], "which") if level and len(leaves) > 1 else "all"
            keep = {"first": leaves[1:], "last": leaves[:-1], "all": []}[which]
            todo = {"first": leaves[:1], "last": leaves[-1:], "all": leaves}[which]
            leaves = list(keep)
            for chunk, content in todo:
                subs = chunk.split(n)
                check(len(subs) == n, f"{len(subs)} chunks instead of {n}", key="number")
                parts = [[ident(x) for x in sub] for sub in subs]
                union = sorted(itertools.chain.from_iterable(parts))
                check(union == content, f"splitting in {n}: {parts} instead of a partition of {content}", key="partition")
                for sub, part in zip(subs, parts):
                    check(part == sorted(part), f"order {part}", key="order")
                    check(len(sub) == len(part), f"length {len(sub)} instead of {len(part)}", key="length")
                sizes = [len(p) for p in parts]
                check(max(sizes) - min(sizes) <= 1, f"unbalanced chunks {sizes}", key="balance")
                check(len({s.id for s in subs}) == n, "identifiers are not unique", key="id")
                leaves.extend(zip(subs, parts))
        check(len({c.id for c, _ in leaves}) == len(leaves), f"identifiers are not unique: {[c.id for c, _ in leaves]}", key="id")
        again = sorted(itertools.chain.from_iterable([ident(x) for x in c] for c, _ in leaves))
        check(again == ref, f"all chunks together: {again} instead of {ref}", key="partition")
        ch.state([p for _, p in leaves])


def modulers(ch: Chooser, total: int, largest: int, levels: int) -> None:
    base = core.Moduler(1, 0, total_length=total)
    leaves = [base]
    for level in range(levels):
        n = ch.choose(range(1, largest + 1), "split")
        which = ch.choose(len(leaves), "which") if level else 0
        leaves = leaves[:which] + leaves[which].split(n) + leaves[which + 1 :]
    for k in range(total):
        owners = [m for m in leaves if m(k)]
        check(len(owners) == 1, f"{k} is selected by {owners}", key="partition")
    for m in leaves:
        check(len(m) == sum(m(k) for k in range(total)), f"length of {m}: {len(m)}", key="length")
    ch.state([(m.modulo, m.index) for m in leaves])


def interrupted(ch: Chooser, number: int, split: int, budget: int, workers: int, batch_mode: bool, stops: int, repetitions: int) -> None:
    with plan(number, budget=budget, workers=workers, batch_mode=batch_mode):
        chunks_ = core.BenchmarkChunk("mc_plan", repetitions=repetitions, seed=3).split(split)
        left = [stops]

        def hook(_: tp.Any) -> None:
            if left[0] and ch.flag("interrupted"):
                left[0] -= 1
                raise KeyboardInterrupt

        HOOK.append(hook)
        allnumbers = []
        for chunk in chunks_:
            want = [ident(x)[1:] for x in chunk]
            processed: tp.List[int] = []

            def process(c: tp.Any, xp: Experiment) -> None:
                check(c is chunk, "wrong chunk", key="process")
                if left[0] and ch.flag("interrupted"):
                    left[0] -= 1
                    raise KeyboardInterrupt
                processed.append(int(xp.get_description()["number"]))  # type: ignore

            for _ in range(stops + 2):
                try:
                    df = chunk.compute(process)
                    break
                except KeyboardInterrupt:
                    pass
            rows = [(int(r["number"]), int(r["seed"])) for _, r in df.iterrows()]
            check(rows == want, f"results {rows} instead of {want}", key="rows")
            check(processed == [w[0] for w in want], f"processed {processed} instead of {want}", key="process")
            for _, r in df.iterrows():
                check(r["error"] == "", f"error {r['error']!r} in the summary of {r['number']}", key="error")
                check(r["loss"] == 100.0 + r["number"], f"loss {r['loss']} for {r['number']}", key="loss")
                check(r["elapsed_budget"] == budget, f"budget {r['elapsed_budget']}", key="budget")
            allnumbers += rows
            before = list(CALLS)
            again = chunk.compute(process)
            check(CALLS == before and len(again) == len(df), "computing again runs experiments again", key="again")
        ref = sorted(x[1:] for x in reference(number, repetitions, None, 3))
        check(sorted(allnumbers) == ref, f"results {sorted(allnumbers)} instead of {ref}", key="all")
        for k in range(number):
            calls = CALLS.count(("call", k))
            maxi = repetitions * budget + (stops - left[0])
            check(repetitions * budget <= calls <= maxi, f"{calls} evaluations for experiment {k}", key="calls")
        ch.state(allnumbers, CALLS)


def whole(ch: Chooser, number: int) -> None:
    """core.compute over several workers"""
    workers = ch.choose([1, 2, 3, number + 1], "workers")
    cap = ch.choose([None, 1, 2, number + 1], "cap")
    seed = ch.choose([None, 5], "seed")

    class Executor:
        """evaluates the jobs at reading, in the order of reading"""

        def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            job = ng.optimization.utils.DelayedJob(fn, *args, **kwargs)
            return job

    with plan(number):
        df = core.compute("mc_plan", num_workers=workers, cap_index=cap, seed=seed, executor=Executor() if workers > 1 else None)  # type: ignore
    rows = sorted((int(r["number"]), int(r["seed"])) for _, r in df.iterrows())
    ref = sorted((x[1], -1 if x[2] is None else x[2]) for x in reference(number, 1, cap, seed))
    check(rows == ref, f"results {rows} instead of {ref}", key="compute")
    ch.state(rows, workers)


class Unwritable:
    """fails when it is written"""

    def __str__(self) -> str:
        raise RuntimeError("cannot be written")

    __repr__ = __str__


def written(path: Path) -> tp.List[tp.Dict[str, tp.Any]]:
    return [{k: v for k, v in r.items() if v == v} for r in pd.read_csv(path).to_dict(orient="records")]


def save(rows: tp.List[tp.Dict[str, tp.Any]], path: Path) -> None:
    with contextlib.redirect_stdout(io.StringIO()):
        core.save_or_append_to_csv(pd.DataFrame(rows), path)


def saves(ch: Chooser, depth: int) -> None:
    folder = Path(tempfile.mkdtemp(prefix="mc_c25_"))
    path = folder / "out.csv"
    kept: tp.List[tp.Dict[str, tp.Any]] = []
    try:
        for k in range(depth):
            op = ch.choose(["same columns", "new column", "two rows", "nothing in a column"], "save")
            rows: tp.List[tp.Dict[str, tp.Any]] = [dict(a=2 * k, b=f"text, with {k}")]
            if op == "new column":
                rows[0]["c"] = k + 1
            elif op == "two rows":
                rows.append(dict(b='quote " and\nline', a=2 * k + 1))
            elif op == "nothing in a column":
                rows = [dict(a=2 * k)]
            save(rows, path)
            kept.extend(rows)
            got = written(path)
            check(got == kept, f"file has {got} instead of {kept}", key="kept")
            ch.state([sorted(k) for k in kept], op)
        check([f.name for f in folder.iterdir()] == ["out.csv"], f"left files {list(folder.iterdir())}", key="left")
    finally:
        shutil.rmtree(str(folder))


def failed_saves(ch: Chooser) -> None:
    """a save which fails at any row changes nothing"""
    folder = Path(tempfile.mkdtemp(prefix="mc_c25_"))
    path = folder / "out.csv"
    kept: tp.List[tp.Dict[str, tp.Any]] = []
    try:
        for k in range(ch.choose([0, 1, 2], "saves before")):
            kept.append(dict(a=k, b=f"text {k}"))
            save(kept[-1:], path)
        rows: tp.List[tp.Dict[str, tp.Any]] = [dict(a=10 + k, b="x") for k in range(3)]
        rows[ch.choose(range(3), "failing row")]["a"] = Unwritable()
        try:
            save(rows, path)
        except RuntimeError:
            pass
        else:
            check(False, "the failure is not reported", key="reported")
        if kept:
            got = written(path)
            check(got[: len(kept)] == kept, f"file has {got} instead of {kept} after a failed save", key="lost")
            check(len(got) == len(kept), f"file has {got} instead of {kept} after a failed save", key="partial")
        else:
            check(not path.exists(), "a failed save leaves a partial file", key="partial")
        save([dict(a=20, b="last")], path)
        ch.state(len(kept))
    finally:
        shutil.rmtree(str(folder))


def scenarios(tier: str) -> tp.Dict[str, Scenario]:
    deep = tier == "thorough"
    inter = []
    for workers, batch in ((1, True), (2, True), (2, False)):
        inter.append(dict(number=3, split=2, budget=2, workers=workers, batch_mode=batch, stops=1, repetitions=2))
        inter.append(dict(number=2, split=1, budget=3, workers=workers, batch_mode=batch, stops=3 if deep else 2, repetitions=1))
        inter.append(dict(number=1, split=1, budget=4, workers=workers, batch_mode=batch, stops=3, repetitions=1))
    return {
        "modulers": Scenario(modulers, [dict(total=n, largest=6 if deep else 4, levels=3) for n in (0, 1, 2, 5, 7, 12, 13)]),
        "chunks": Scenario(chunks, [dict(number=n, splits=[1, 2, 3, 5] if deep else [1, 2, 3]) for n in ((1, 2, 3, 4, 5, 7) if deep else (1, 2, 3, 4))]),
        "interrupted": Scenario(interrupted, inter),
        "whole": Scenario(whole, [dict(number=n) for n in (1, 3, 4)]),
        "failed_saves": Scenario(failed_saves, [{}]),
        "saves": Scenario(saves, [dict(depth=4 if deep else 3)]),
    }
