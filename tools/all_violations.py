"""Development aid: explores every configuration of a check and lists the distinct violations (tools/av.sh CXX [tier] [scenario] [examples] [max executions])"""
import importlib, sys, collections, multiprocessing as mp
sys.path.insert(0, "/verif")
from mc import main, engine
main.import_repo()
import warnings; warnings.simplefilter("ignore")
mod = importlib.import_module("mc.checks." + sys.argv[1].lower())
args = sys.argv[2:] + [""] * 5
scen = mod.scenarios(args[0] or "quick")
LIMIT = int(args[3] or 3000)
def run(job):
    name, cfg = job
    s = scen[name]
    out = {}
    stack = [()]
    n = 0
    while stack and n < LIMIT and len(out) < 6:
        prefix = stack.pop()
        n += 1
        ch = engine.Chooser(prefix)
        try:
            s.fn(ch, **cfg)
        except engine.Violation as e:
            out.setdefault(name + ":" + str(e.key), (str(cfg), str(e)[:300]))
        except Exception as e:
            if type(e).__name__ in ("Prune", "Pruned"): continue
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = " < ".join(f"{f.name}:{f.lineno}" for f in reversed(tb[-3:]))
            out.setdefault(name + ":EXC" + type(e).__name__, (str(cfg), f"{e} {loc}"[:300]))
        for k in range(len(prefix), len(ch.trace)):
            for alt in range(1, ch.widths[k]):
                stack.append(tuple(ch.trace[:k]) + (alt,))
    return n, out
if __name__ == "__main__":
    jobs = [(n, c) for n, s in scen.items() for c in s.cfgs if args[1] in n]
    by = collections.defaultdict(list)
    total = 0
    with mp.get_context("fork").Pool(int(__import__("os").environ.get("W","8"))) as pool:
        for n, out in pool.imap_unordered(run, jobs, chunksize=1):
            total += n
            for k, v in out.items(): by[k].append(v)
    sys.stdout.flush(); print(total, "executions of", len(jobs), "configurations")
    for k, v in sorted(by.items()):
        print(k, len(v))
        for c, m in sorted(v, key=lambda x: len(x[0]))[:int(args[2] or 3)]: print("   ", c[:150], "|", m)
