"""Generates and validates the planted bugs of /verif/seeded from tools/bugs.py: python3 tools/plant.py [ids...] [--check]

Each bug is validated in its own scratch copy of /repo: the patch applies, the demo passes without and fails with it, the stable tests pass.
With --check, the patch is applied to /repo, the check of its property is run, and the patch is undone."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from bugs import BUGS  # noqa

DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def build(bug):
    out = ROOT / "seeded" / bug["id"]
    tmp = Path(tempfile.mkdtemp(prefix="plant_"))
    repo = tmp / "repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        out.mkdir(parents=True, exist_ok=True)
        (out / "demo.py").write_text(bug["demo"])
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["what"]), indent=1) + "\n")
        r = sh(f"bash {out}/demo.sh", cwd=repo)
        if r.returncode:
            return bug["id"], "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-500:]
        for file, old, new in bug["edits"]:
            f = repo / "nevergrad" / file
            text = f.read_text()
            if text.count(old) != 1:
                return bug["id"], f"{text.count(old)} occurrences in {file}: {old!r}"
            f.write_text(text.replace(old, new))
        (out / "patch.diff").write_text(sh("git diff", cwd=repo).stdout)
        # original lines only
        r = sh(f"bash {out}/demo.sh", cwd=repo)
        if r.returncode == 0:
            return bug["id"], "demo passes with the bug"
        script = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {repo}").replace("/opt/vp/report.xml", f"{tmp}/report.xml").replace("-n 8", "-n 4")
        (tmp / "test.sh").write_text(script)
        r2 = sh(f"bash {tmp}/test.sh {tmp}/out.json", env=dict(os.environ, PYTHONPATH=str(repo)))
        if not (tmp / "out.json").exists():
            return bug["id"], "tests do not run: " + (r2.stdout + r2.stderr)[-300:]
        passed = set(json.load(open(tmp / "out.json"))["passed"])
        missing = stable() - passed
        if missing:
            return bug["id"], f"{len(missing)} stable tests fail: {sorted(missing)[:4]}"
        return bug["id"], "valid"
    finally:
        shutil.rmtree(tmp)


def run_check(bug):
    patch = ROOT / "seeded" / bug["id"] / "patch.diff"
    r = sh(f"git -C /repo apply {patch}")
    if r.returncode:
        return f"patch does not apply: {r.stderr[:200]}"
    try:
        r = sh(f"cd {ROOT} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {bug['property']}")
        lines = [x for x in r.stdout.splitlines() if x.startswith("violation") or x.startswith("VIOLATION")]
        return ("CAUGHT " if r.returncode == 1 and any(x.startswith("VIOLATION") for x in lines) else "MISSED ") + " | ".join(lines)[:300]
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [b for b in BUGS if not args or b["id"] in args or b["property"] in args]
    if "--check" in sys.argv:
        for b in todo:
            print(b["id"], run_check(b), flush=True)
    else:
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for res in ex.map(build, todo):
                print(*res, flush=True)
