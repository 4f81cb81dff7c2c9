"""Which lines of evotorch the scenarios reach:  python tools/coverage.py OUT.json [runs per scenario] [properties...]

Writes {file: {line: [properties]}}; prints per file how many code lines are reached."""
import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")


def lines_of(prop, runs):
    from dst import boot, run  # noqa
    from dst.registry import PROPERTIES
    import torch

    torch.set_num_threads(1)
    base = os.path.join(boot.REPO_SRC, "evotorch") + os.sep
    hit = {}
    mon = sys.monitoring

    def line(code, no):
        f = code.co_filename
        if f.startswith(base):
            hit.setdefault(f[len(base) :], set()).add(no)
        return mon.DISABLE

    mon.use_tool_id(1, "dst")
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    for s in PROPERTIES[prop]["scenarios"]:
        for i in range(runs):
            run.execute(s["fn"], seed=i * 104729 + 3, faults=i % 3 != 0)
    mon.set_events(1, 0)
    return prop, {f: sorted(v) for f, v in hit.items()}


def code_lines(path):
    out = set()

    def walk(c):
        out.update(n for _, _, n in c.co_lines() if n)
        for k in c.co_consts:
            if hasattr(k, "co_lines"):
                walk(k)

    top = compile(open(path).read(), path, "exec")
    for k in top.co_consts:
        if hasattr(k, "co_lines"):
            walk(k)
    return out


def main():
    out = sys.argv[1]
    runs = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    from dst import boot
    from dst.registry import PROPERTIES

    props = sys.argv[3:] or list(PROPERTIES)
    cov = {}
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as ex:
        for prop, hit in ex.map(lines_of, props, [runs] * len(props)):
            for f, ls in hit.items():
                for n in ls:
                    cov.setdefault(f, {}).setdefault(str(n), []).append(prop)
    json.dump(cov, open(out, "w"))
    for f in sorted(cov):
        all_ = code_lines(os.path.join(boot.REPO_SRC, "evotorch", f))
        got = {int(n) for n in cov[f]} & all_
        print(f"{len(got):5d}/{len(all_):5d}  {f}")


if __name__ == "__main__":
    main()
