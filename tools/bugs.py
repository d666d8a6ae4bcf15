"""Planted bugs (source of /verif/seeded, see plant.py)"""
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo.strip() + "\n"))


OPT = "optimization/"
bug(
    "c01-double-poll",
    "C01",
    [(OPT + "base.py", """            tmp_runnings, tmp_finished = [], deque()
            for x_job in self._running_jobs:
                (tmp_finished if x_job[1].done() else tmp_runnings).append(x_job)
            self._running_jobs, self._finished_jobs = tmp_runnings, tmp_finished
""", """            tmp_finished = deque(x_job for x_job in self._running_jobs if x_job[1].done())
            tmp_runnings = [x_job for x_job in self._running_jobs if not x_job[1].done()]
            self._running_jobs, self._finished_jobs = tmp_runnings, tmp_finished
""")],
    "a job that completes between the two polls of one iteration of minimize",
    "each submitted evaluation is told exactly once (a job which completes between both polls is neither running nor finished, and is lost)",
    '''
import nevergrad as ng

class Job:
    def __init__(self, value, polls):
        self.value, self.polls = value, polls
    def done(self):
        self.polls -= 1
        return self.polls < 0
    def result(self):
        return self.value

class Executor:
    n = 0
    def submit(self, fn, *args, **kwargs):
        self.n += 1
        return Job(fn(*args, **kwargs), self.n % 3)

opt = ng.optimizers.RandomSearch(2, budget=12, num_workers=3)
opt.minimize(lambda x: float((x ** 2).sum()), executor=Executor())
assert opt.num_tell == 12, opt.num_tell
''',
)
bug(
    "c02-popleft-first",
    "C02",
    [(OPT + "base.py", """                    x, job = self._finished_jobs[0]
""", """                    x, job = self._finished_jobs.popleft()
"""), (OPT + "base.py", """                    self._finished_jobs.popleft()  # remove it after the tell to make sure it was indeed "told" (in case of interruption)
""", "")],
    "an exception while reading a result or telling it, then resuming minimize",
    "an evaluation is lost when minimize is interrupted while it is processed, and resumed",
    '''
import nevergrad as ng
fail = [True]
def func(x):
    if len(calls) == 3 and fail:
        fail.clear()
        raise KeyboardInterrupt
    calls.append(1)
    return float((x ** 2).sum())
calls = []
opt = ng.optimizers.RandomSearch(2, budget=8)
for _ in range(2):
    try:
        opt.minimize(func)
    except KeyboardInterrupt:
        pass
assert opt.num_ask == 8 and opt.num_tell == 8, (opt.num_ask, opt.num_tell)
''',
)
bug(
    "c03-timer-from-creation",
    "C03",
    [(OPT + "callbacks.py", """        self._start = float("inf")
        self._max_duration = max_duration
""", """        self._start = time.time()
        self._max_duration = max_duration
""")],
    "some time between the creation of the criterion and the first ask",
    "the duration is counted from the creation of the callback instead of the first ask",
    '''
import time
import nevergrad as ng
opt = ng.optimizers.RandomSearch(2, budget=5)
stop = ng.callbacks.EarlyStopping.timer(1.0)
opt.register_callback("ask", stop)
t = time.time
time.time = lambda: t() + 10
opt.minimize(lambda x: float((x ** 2).sum()))
assert opt.num_tell == 5, opt.num_tell
''',
)
bug(
    "c05-reboot-if-worse",
    "C05",
    [(OPT + "base.py", """            if mvalue is self.current_bests[name]:  # reboot
""", """            if mvalue is self.current_bests[name] and loss > mvalue.mean:  # reboot
""")],
    "a point evaluated several times, with a loss under its mean that nevertheless increases its optimistic bound",
    "the tracked optimistic best is not the one of the archive any more",
    '''
import nevergrad as ng
opt = ng.optimizers.RandomSearch(1, budget=50)
def tell(x, loss):
    c = opt.parametrization.spawn_child()
    c.set_standardized_data([x])
    opt.tell(c, loss)
tell(0.0, 1.0)
tell(1.0, 2.0)
for _ in range(3):
    tell(0.0, 0.9)
best = min(opt.archive.values(), key=lambda v: v.get_estimation("optimistic"))
assert opt.current_bests["optimistic"].get_estimation("optimistic") == best.get_estimation("optimistic")
''',
)
bug(
    "c06-pruning-at-max",
    "C06",
    [(OPT + "utils.py", """        if len(archive) < self.max_len:
            return archive
""", """        if len(archive) <= self.max_len:
            return archive
""")],
    "an archive with exactly the maximum length",
    "the archive reaches its announced maximum length without being pruned",
    '''
import numpy as np
import nevergrad as ng
from nevergrad.optimization import utils
prune = utils.Pruning(2, 6)
archive = utils.Archive()
ref = ng.p.Array(shape=(1,))
for k in range(6):
    archive[np.array([float(k)])] = utils.MultiValue(ref.spawn_child(), float(k), reference=ref)
out = prune(archive)
assert len(out) < 6, len(out)
''',
)
bug(
    "c07-filter-dropped",
    "C07",
    [(OPT + "multiobjective/core.py", """        self._pareto.append(parameter)
        self._pareto_needs_filtering = True
""", """        self._pareto.append(parameter)
        self._pareto_needs_filtering |= len(self._pareto) > 2
""")],
    "a front of exactly two points, one of which dominates the other",
    "the front holds a dominated point when only two points were told",
    '''
import numpy as np
import nevergrad as ng
opt = ng.optimizers.RandomSearch(2, budget=50)
opt.tell(ng.p.MultiobjectiveReference(), [10.0, 10.0])
for losses in ([5.0, 5.0], [3.0, 3.0]):
    c = opt.ask()
    opt.tell(c, losses)
assert len(opt.pareto_front()) == 1, [p.losses for p in opt.pareto_front()]
''',
)
bug(
    "c09-crowding-range",
    "C09",
    [(OPT + "multiobjective/nsga2.py", """            density_estimator.sort(p_frontier)
""", """            density_estimator.sort(p_frontier, in_place=False)
""")],
    "a front with at least two intermediate points, partly selected",
    "the members of the last selected front are not the least crowded ones",
    '''
import numpy as np
import nevergrad as ng
from nevergrad.optimization.multiobjective import nsga2
ref = ng.p.Scalar()
cands = []
for l in ([0.0, 10.0], [1.0, 4.0], [2.0, 3.0], [6.0, 2.5], [10.0, 0.0]):
    c = ref.spawn_child()
    c._losses = np.array(l)
    cands.append(c)
def brute(k):
    out = 0.0
    for i in range(2):
        vals = sorted(c._losses[i] for c in cands)
        j = vals.index(cands[k]._losses[i])
        out += (vals[j + 1] - vals[j - 1]) / (vals[-1] - vals[0])
    return out
ranked = nsga2.rank(cands, n_selected=4)
inner = {cands[k].uid: brute(k) for k in (1, 2, 3)}
selected = [u for u in ranked if u in inner]
assert min(inner, key=inner.get) not in ranked, (ranked, inner)
''',
)
bug(
    "c10-pso-lineage",
    "C10",
    [(OPT + "optimizerlib.py", """        candidate.heritage["lineage"] = uid  # override in case it was a tell-not-asked
        return candidate
""", """        return candidate
""")],
    "a foreign candidate which enters the population, then the evaluation of one of its children",
    "the result of a particle coming from a foreign candidate does not go back to this particle",
    '''
import nevergrad as ng
opt = ng.optimizers.ConfPSO(popsize=2)(1, budget=50) if hasattr(ng.optimizers, "ConfPSO") else ng.families.ConfPSO(popsize=2)(1, budget=50)
opt.parametrization.random_state.seed(0)
for k in range(2):
    opt.tell(opt.ask(), 10.0 + k)
c = opt.parametrization.spawn_child(new_value=[0.1])
opt.tell(c, 1.0)
before = set(opt.population)
assert c.uid in before
for k in range(4):
    opt.tell(opt.ask(), 0.5 - 0.1 * k)
assert set(opt.population) == before, (before, set(opt.population))
''',
)
bug(
    "c11-pending-lost",
    "C11",
    [(OPT + "base.py", """    # pylint: disable=too-many-branches
    def tell(
""", """    def __getstate__(self) -> tp.Dict[str, tp.Any]:
        \"\"\"The candidates which are being evaluated are not part of the state\"\"\"
        state = dict(self.__dict__)
        state["_asked"] = set()
        return state

    # pylint: disable=too-many-branches
    def tell(
""")],
    "a dump while some candidates are pending, told after loading",
    "pending candidates are considered as not asked after loading",
    '''
import tempfile, pathlib
import nevergrad as ng
with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "x.pkl"
    opt = ng.optimizers.OnePlusOne(2, budget=30, num_workers=2)
    a, b = opt.ask(), opt.ask()
    opt.tell(a, 1.0)
    opt.dump(path)
    new = ng.optimizers.OnePlusOne.load(path)
    for o in (opt, new):
        o.tell(b, 2.0)
    assert opt.num_tell_not_asked == new.num_tell_not_asked == 0, new.num_tell_not_asked
''',
)
bug(
    "c12-es-global-random",
    "C12",
    [(OPT + "es.py", """            selected = self._rng.choice(list(self._population))
""", """            selected = np.random.choice(list(self._population))
"""), (OPT + "es.py", """import nevergrad.common.typing as tp
""", """import numpy as np
import nevergrad.common.typing as tp
""")],
    "an evolution strategy with recombination, and a different global random state",
    "the partner of recombinations is drawn from the global random state",
    '''
import numpy as np
import nevergrad as ng
runs = []
for seed in (1, 2):
    opt = ng.optimizers.RecES(2, budget=400)
    opt.parametrization.random_state.seed(3)
    np.random.seed(seed)
    pts = []
    for k in range(150):
        c = opt.ask()
        pts.append(tuple(c.value))
        opt.tell(c, float(((c.value - 2) ** 2).sum()))
    runs.append(pts)
assert runs[0] == runs[1]
''',
)
bug(
    "c14-no-call",
    "C14",
    [(OPT + "recaster.py", """        else:
            self.messages_ask.put(None)
""", """        else:
            if self.call_count:
                self.messages_ask.put(None)
""")],
    "a routine which returns without evaluating any point, once the main thread is waiting for its first message",
    "asking blocks forever",
    '''
import os, threading, time
import nevergrad as ng
from nevergrad.optimization import recaster
class Opt(recaster.SequentialRecastOptimizer):
    def get_optimization_function(self):
        def func(f):
            time.sleep(1)
            return None
        return func
timer = threading.Timer(20, lambda: os._exit(1))
timer.daemon = True
timer.start()
Opt(2, budget=20).ask()
os._exit(0)
''',
)
bug(
    "c15-order-of-tells",
    "C15",
    [(OPT + "recaster.py", """        self._batch_losses[candidate_index] = self._post_loss(candidate, loss)
        self._tell_counter += 1
""", """        self._batch_losses[candidate_index - self.batch_size] = self._post_loss(candidate, loss)
        self._tell_counter += 1
"""), (OPT + "recaster.py", """        self.batch_size = len(points)
        self._current_batch = [
""", """        self.batch_size = max(self.batch_size, len(points))
        self._current_batch = [
""")],
    "a batch smaller than a previous one",
    "the losses of a batch smaller than a previous one are never delivered",
    '''
import os, threading
import numpy as np
import nevergrad as ng
from nevergrad.optimization import recaster
got = []
class Opt(recaster.BatchRecastOptimizer):
    def get_optimization_function(self):
        def func(f):
            for n in (3, 2, 2):
                got.append(f(np.arange(2.0 * n).reshape(n, 2)))
            return None
        return func
def main():
    opt = Opt(2, budget=20)
    for n in (3, 2):
        cands = [opt.ask() for _ in range(n)]
        for c in cands:
            opt.tell(c, float(c.value[0]))
    c = opt.ask()
timer = threading.Timer(20, lambda: os._exit(1))
timer.daemon = True
timer.start()
try:
    main()
    ok = len(got) == 2 and list(got[0]) == [0.0, 2.0, 4.0] and list(got[1]) == [0.0, 2.0]
except Exception as e:
    print(repr(e))
    ok = False
os._exit(0 if ok else 1)
''',
)
bug(
    "c25-summary-before-process",
    "C25",
    [("benchmark/core.py", """            if process_function is not None:
                process_function(self, self._current_experiment)
            self.summaries.append(summary)
""", """            self.summaries.append(summary)
            if process_function is not None:
                process_function(self, self._current_experiment)
""")],
    "an interruption in the processing function, then resuming",
    "the experiment is recorded as done although its processing was interrupted",
    '''
import nevergrad as ng
from nevergrad.benchmark import core
from nevergrad.benchmark.xpbase import Experiment
from nevergrad.functions import ArtificialFunction
def demo_plan(seed=None):
    for k in range(3):
        yield Experiment(ArtificialFunction("sphere", block_dimension=k + 1), "OnePlusOne", budget=3, seed=k)
core.registry.register(demo_plan)
chunk = core.BenchmarkChunk("demo_plan", seed=1)
seen, fail = [], [1]
def process(c, xp):
    if len(seen) == 1 and fail:
        fail.clear()
        raise KeyboardInterrupt
    seen.append(xp.function.dimension)
for _ in range(2):
    try:
        df = chunk.compute(process)
    except KeyboardInterrupt:
        pass
assert seen == [1, 2, 3], seen
''',
)
bug(
    "c26-lost-job",
    "C26",
    [("benchmark/execution.py", """            job = self._to_be_processed[0]
            job.process()  # trigger computation
""", """            job = self._to_be_processed.popleft()
            job.process()  # trigger computation
"""), ("benchmark/execution.py", """            self._to_be_processed.popleft()  # remove right after it is added to the heap queue
""", "")],
    "an evaluation which raises once in the simulated executor, and another poll of the same job",
    "the job which raised is forgotten by the executor: it is never done",
    '''
from nevergrad.benchmark.execution import MockedTimedExecutor
ex = MockedTimedExecutor(batch_mode=False)
fails = [1]
def f(x):
    if fails:
        fails.clear()
        raise KeyError("once")
    return x
job = ex.submit(f, 12)
try:
    job.done()
except KeyError:
    pass
assert job.done()
assert job.result() == 12
''',
)
