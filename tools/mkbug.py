"""Helper for planting bugs.

    from mkbug import plant
    plant(id, property, [(file, old, new), ...], demo_python, needs, what_it_breaks)

Everything is confirmed in a scratch copy: the patch applies, the stable tests pass, the
demonstration passes without and fails with the change.  Then the checks are run on it.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("PLANT_REPO", "/repo")


def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)


def scratch_copy(name):
    d = f"/tmp/bug_{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "site", "docs", "examples"))
    if os.path.isfile(f"{d}/.git"):
        # of a worktree
        os.remove(f"{d}/.git")
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=d)
    # keep the deleted directories out of the diff
    sh("git checkout -q -- .", cwd=d)
    return d


ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "CUDA_VISIBLE_DEVICES": "",
    "RAY_ADDRESS": "local",
    "RAY_USAGE_STATS_ENABLED": "0",
    "WANDB_MODE": "disabled",
    "MLFLOW_ALLOW_FILE_STORE": "true",
    "MLFLOW_DISABLE_TELEMETRY": "true",
    "MLFLOW_DISABLE_AGENT_HINT": "1",
    "OMP_NUM_THREADS": "4",
}


def stable_tests(d):
    t = f"/tmp/tb_{os.getpid()}"
    os.makedirs(t, exist_ok=True)
    env = {**ENV, "PYTHONPATH": f"{d}/src", "RAY_TMPDIR": t, "TMPDIR": t}
    rc, out = sh(
        f"{PY} -m pytest -q -p no:cacheprovider --no-cov --timeout=120 --continue-on-collection-errors"
        f" --basetemp={t}/pt -o junit_family=xunit2 --junitxml={t}/junit.xml tests",
        env=env,
        cwd=d,
    )
    sh(f"python3 /opt/vp/results.py {t}/o.json junit:{t}/junit.xml")
    res = json.load(open(f"{t}/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    missing = sorted(set(base["stable"]) - set(res["passed"]))
    subprocess.run(["pkill", "-9", "-f", f"{t}/"])
    shutil.rmtree(t, ignore_errors=True)
    return missing


def run_demo(bug, d):
    return sh(f"bash {ROOT}/seeded/{bug}/demo.sh", env={**ENV, "PYTHONPATH": f"{d}/src"}, cwd=d, timeout=300)


def run_check(prop, d, scale=1.0, out="/tmp/bugout"):
    os.makedirs(out, exist_ok=True)
    env = {
        "VERIF_REPO_SRC": f"{d}/src",
        "PYTHONPATH": f"{d}/src:{ROOT}",
        "VERIF_OUT": out,
        "VERIF_SEED": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1",
    }
    return sh(f"{PY} -m dst.run check {prop} --tier quick --scale {scale}", env=env, cwd=ROOT)


def plant(bug, prop, edits, demo, needs, breaks, check=True, tests=True, also=()):
    d = scratch_copy(bug)
    ok = True
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bug, "PATTERN FOUND", s.count(old), "TIMES in", f)
                return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=d)
        sd = os.path.join(ROOT, "seeded", bug)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(demo)
        open(os.path.join(sd, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= RAY_ADDRESS=local'
            ' RAY_USAGE_STATS_ENABLED=0\nexport MLFLOW_DISABLE_TELEMETRY=true MLFLOW_DISABLE_AGENT_HINT=1 WANDB_MODE=disabled\n'
            'find "$PWD/src" -name __pycache__ -type d -prune -exec rm -rf {} + 2>/dev/null\n'
            'exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        json.dump(
            {"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(sd, "meta.json"), "w"), indent=1
        )
        rc0, out0 = run_demo(bug, REPO)
        rc1, out1 = run_demo(bug, d)
        print(f"{bug}: demo clean={rc0} patched={rc1}")
        if rc0 != 0:
            print(out0[-1500:])
            ok = False
        if rc1 == 0:
            print(out1[-800:])
            ok = False
        if tests and ok:
            missing = stable_tests(d)
            print(f"{bug}: stable tests broken: {len(missing)}", missing[:3])
            ok = ok and not missing
        if not ok:
            shutil.rmtree(sd)
            print(f"{bug}: NOT KEPT")
            return False
        if check:
            for pr in (prop, *also):
                rc, out = run_check(pr, d)
                print(f"{bug}: check {pr} -> exit {rc}:", " | ".join(out.strip().splitlines()[-4:])[:600])
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(bugs=None):
    """Run the check of its property on every planted bug."""
    res = {}
    for bug in bugs or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", bug, "meta.json")))
        d = scratch_copy("re_" + bug)
        rc, out = sh(f"git apply {ROOT}/seeded/{bug}/patch.diff", cwd=d)
        if rc:
            print(bug, "DOES NOT APPLY", out)
            continue
        rc, out = run_check(meta["property"], d)
        last = [x for x in out.strip().splitlines() if x.startswith("violated")]
        print(f"{bug} {meta['property']} exit={rc} {last[0][:160] if last else out.strip().splitlines()[-1][:160]}", flush=True)
        res[bug] = rc
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    r = recheck(sys.argv[1:])
    print("caught", sum(1 for v in r.values() if v == 1), "of", len(r))
