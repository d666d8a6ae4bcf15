"""Entry point: python -m mc.main <PROPERTY-ID> | --replay <file>"""
import importlib
import importlib.machinery
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import typing as tp
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the current source (never trusts a cached .pyc)"""

    def get_code(self, fullname: str) -> tp.Any:
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path: str) -> tp.Any:
    if not (path == str(REPO) or path.startswith(str(REPO) + os.sep)):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_FreshLoader, [".py"]))


def import_repo() -> None:
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, str(REPO))
    import warnings

    warnings.simplefilter("ignore")
    import nevergrad

    where = Path(nevergrad.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise RuntimeError(f"wrong nevergrad: {where}")


from . import engine  # noqa: E402


class Scenario(tp.NamedTuple):
    """A closed driver, and the configurations it is explored on"""

    fn: tp.Callable[..., tp.Any]
    cfgs: tp.List[tp.Dict[str, tp.Any]]
    max_dev: tp.Optional[int] = None
    dedupe: bool = False
    limit: float = engine.EXEC_LIMIT_S


_STATE: tp.Dict[str, tp.Any] = {}


def _work(unit: engine.Unit) -> engine.Result:
    scen: Scenario = _STATE["scenarios"][unit.scenario]
    return engine.explore_unit(
        unit,
        scen.fn,
        scen.cfgs[unit.index],
        seed=_STATE["seed"],
        slice_s=2.0,
        max_dev=scen.max_dev,
        dedupe=scen.dedupe,
        limit=scen.limit,
        known=_STATE["known"],
    )


def load_known(prop: str) -> tp.Dict[str, str]:
    path = ROOT / "known_findings.json"
    data = json.loads(path.read_text()) if path.exists() else []
    return {d["key"]: d["what"] for d in data if d["property"] == prop and d.get("status") == "open"}


def shrink(scen: Scenario, index: int, choices: tp.List[int], seed: int) -> tp.List[int]:
    """Greedy: default decisions wherever the violation remains"""
    t0 = engine.REAL_TIME()
    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    for k in reversed(range(len(best))):
        if engine.REAL_TIME() - t0 > 20:
            break
        if best[k] == 0:
            continue
        attempt = best[:k] + [0] + best[k + 1 :]
        ch = engine.Chooser(attempt)
        ch.replay = True
        try:
            out = engine.execute(scen.fn, scen.cfgs[index], ch, seed, 30)
        except Exception:  # pylint: disable=broad-except
            continue
        if out.kind == "violation":
            best = attempt
            while best and best[-1] == 0:
                best.pop()
    return best


def _shrink_task(args: tp.Any) -> tp.List[int]:
    name, index, choices = args
    return shrink(_STATE["scenarios"][name], index, choices, _STATE["seed"])


def run_check(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    import_repo()
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    scenarios: tp.Dict[str, Scenario] = module.scenarios(tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        scenarios = {k: v for k, v in scenarios.items() if k in only.split(",")}
    known = load_known(prop)
    _STATE.update(scenarios=scenarios, seed=seed, known=lambda key: key in known)
    deadline = float(os.environ.get("VERIF_DEADLINE", 800 if tier == "quick" else 20000))
    workers = int(os.environ.get("VERIF_WORKERS", len(os.sched_getaffinity(0))))
    totals: tp.Dict[str, tp.Dict[str, int]] = {
        name: dict(configurations=len(s.cfgs), runs=0, pruned=0, transitions=0, maxdepth=0)
        for name, s in scenarios.items()
    }
    states: tp.Set[int] = set()
    samples: tp.Dict[str, tp.Any] = {}
    found: tp.List[tp.Dict[str, tp.Any]] = []
    known_hit: tp.Set[str] = set()
    capped = False
    queue: tp.List[engine.Unit] = []
    for name, s in scenarios.items():
        for k in range(len(s.cfgs)):
            queue.append(engine.Unit(name, k, ((),)))
    queue.reverse()
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    pool = ctx.Pool(workers, initializer=engine.silence)
    pending: tp.List[tp.Any] = []
    error: tp.Optional[str] = None
    while queue or pending:
        while queue and len(pending) < 2 * workers:
            pending.append(pool.apply_async(_work, (queue.pop(),)))
        done = [x for x in pending if x.ready()]
        if not done:
            if time.time() - t0 > deadline:
                capped = True
                break
            pending[0].wait(0.05)
            continue
        pending = [x for x in pending if not x in done]
        for x in done:
            try:
                res: engine.Result = x.get()
            except Exception:  # pylint: disable=broad-except
                error = traceback.format_exc()
                queue, pending = [], []
                break
            tot = totals[res.unit.scenario]
            tot["runs"] += res.runs
            tot["pruned"] += res.pruned
            tot["transitions"] += res.steps
            tot["maxdepth"] = max(tot["maxdepth"], res.maxdepth)
            states |= res.states
            if res.sample is not None and res.unit.scenario not in samples:
                samples[res.unit.scenario] = dict(
                    scenario=res.unit.scenario,
                    configuration=engine.jsonable(scenarios[res.unit.scenario].cfgs[res.unit.index]),
                    decisions=res.sample,
                )
            for v in res.violations:
                if v["key"] in known:
                    known_hit.add(v["key"])
                else:
                    found.append(v)
            if res.leftover:
                left = list(res.leftover)
                # shallow prefixes first are the biggest subtrees: spread them
                num = min(len(left), workers)
                for k in range(num):
                    part = tuple(left[k::num])
                    queue.append(engine.Unit(res.unit.scenario, res.unit.index, part))
        if found:
            break
    lines = []
    if found and error is None:
        v = min(found, key=lambda d: len(d["choices"]))
        try:
            v["choices"] = pool.apply_async(
                _shrink_task, ((v["scenario"], v["index"], v["choices"]),)
            ).get(60)
        except Exception:  # pylint: disable=broad-except
            pass
        rdir = ROOT / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{engine.digest((v['scenario'], v['index'], v['choices'])) % 10**10:010d}.json"
        path.write_text(json.dumps(dict(property=prop, seed=seed, tier=tier, **engine.jsonable(v)), indent=1))
        lines.append(f"violation: {v['scenario']} {v['cfg']}: {v['message']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    pool.terminate()
    for key in sorted(known_hit):
        lines.append(f"KNOWN-FINDING: property={prop} {known[key]}")
    runs = sum(t["runs"] for t in totals.values())
    level = getattr(module, "LEVEL", "model_checking")
    coverage: tp.Dict[str, tp.Any] = dict(
        states=len(states),
        transitions=sum(t["transitions"] for t in totals.values()),
        traces_validated_against_impl=runs,
        scenarios=totals,
        samples=list(samples.values())[:6],
        rule=module.RULE,
        exhaustive=not capped and not found and error is None,
    )
    if level != "model_checking":
        coverage["evaluations"] = coverage.pop("traces_validated_against_impl")
        coverage["distinct_nontrivial"] = coverage.pop("states")
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=engine.jsonable(coverage),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(found),
    )
    edir = ROOT / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for name, t in totals.items():
        print(f"{prop} {name}: {t}")
    print(f"{prop}: states={len(states)} executions={runs} wall={evidence['wall_s']}s capped={capped}")
    for line in lines:
        print(line)
    sys.stdout.flush()
    if error is not None:
        print("ERROR of the check:\n" + error, file=sys.stderr)
        return 2
    return 1 if found else 0


def replay(path: str) -> int:
    data = json.loads(Path(path).read_text())
    import_repo()
    module = importlib.import_module(f"mc.checks.{data['property'].lower()}")
    scen: Scenario = module.scenarios(data["tier"])[data["scenario"]]
    ch = engine.Chooser(data["choices"])
    ch.replay = True
    out = engine.execute(scen.fn, scen.cfgs[data["index"]], ch, data["seed"])
    print("configuration:", scen.cfgs[data["index"]])
    for item in ch.log:
        print("  ", item)
    print(out.kind, out.message)
    print(out.tb)
    return 1 if out.kind == "violation" else 0


def main() -> None:
    args = sys.argv[1:]
    try:
        if args and args[0] == "--replay":
            code = replay(args[1])
        else:
            tier = os.environ.get("VERIF_TIER", "quick")
            if tier not in ("quick", "thorough"):
                tier = "quick"
            code = run_check(args[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
