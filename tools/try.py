"""Try a scenario which is not registered yet:  python tools/try.py dist:c07_gradients N [first]

Prints every distinct violation once, with the traceback or the details and the seed."""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")
from dst import boot  # noqa

boot.boot() if hasattr(boot, "boot") else None
from dst import run  # noqa


def main():
    mod, fn = sys.argv[1].split(":")
    n = int(sys.argv[2])
    first = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    import torch

    torch.set_num_threads(1)
    f = getattr(importlib.import_module("dst.scen." + mod), fn)
    seen, probes, faults, checks = {}, {}, {}, 0
    for i in range(first, first + n):
        r = run.execute(f, seed=i * 7919 + 1, faults=i % 3 != 0)
        checks += r.checks
        for d, s in ((probes, r.probes), (faults, r.faults)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        key = r.harness or (r.violation and r.violation[0])
        if key:
            if key not in seen:
                print("----- run", i, "ops:", [t[1:] for t in r.trace if t[0] == "op"][:6])
                print(key)
                if r.violation:
                    print(r.violation[1][:600])
                    print((r.violation[2] or "")[-1800:])
            seen[key] = seen.get(key, 0) + 1
    print("runs", n, "checks", checks, "violations", seen, "\nprobes", probes, "\nfaults", faults)


main()
