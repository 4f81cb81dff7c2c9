"""Command line of the simulator.

    python -m dst.run check  PROPERTY [--tier quick|thorough] [--workers N] [--scale X]
    python -m dst.run replay FILE
    python -m dst.run one    PROPERTY SCENARIO INDEX      (verbose single run)
    python -m dst.run determinism [PROPERTY ...]           (run seeds twice, compare digests)
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replays go
RUN_WALL_LIMIT = 120  # seconds; an ordinary run takes some tens of milliseconds
TIER_CAP = {"quick": 300, "thorough": 3000}  # wall seconds of exploration


def _registry():
    from . import boot  # noqa: F401
    from .registry import PROPERTIES

    return PROPERTIES


def run_seed(master, prop, scen, index):
    h = hashlib.sha256(f"{master}:{prop}:{scen}:{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def faults_for(index):
    """A third of the runs is free of faults, so that strict oracles stay strict there."""
    return index % 3 != 0


class RunResult:
    def __init__(self):
        self.violation = None  # (key, message, details)
        self.harness = None
        self.digest = None
        self.sched = None
        self.rec = None
        self.trace = None
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.events = 0
        self.checks = 0


def _alarm(signum, frame):
    from .kernel import Violation

    raise Violation("hang", f"a simulated run did not finish within {RUN_WALL_LIMIT} s of wall time")


def execute(fn, *, seed=None, replay=None, faults=True, keep_trace=False):
    """Execute one simulated run of the scenario `fn`."""
    from . import kernel, simray
    from .kernel import HarnessError, Sim, SimCrash, Violation, classify_exception

    res = RunResult()
    sim = Sim(seed=seed, replay=replay, faults=faults)
    kernel.activate(sim)
    simray.cluster()
    # whatever is written to relative paths stays in a directory of this run
    home = os.getcwd()
    sim.state["cwd"] = tempfile.mkdtemp(prefix="simcwd_", dir=os.environ.get("VERIF_SCRATCH"))
    os.chdir(sim.state["cwd"])
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL_LIMIT)
    try:
        simray.set_rng(simray.fresh_rng(sim.ch.seed()))
        fn(sim)
    except Violation as v:
        res.violation = (v.key, v.message, v.details)
        sim.event("violation", v.key)
    except HarnessError as e:
        res.harness = "".join(traceback.format_exception(e))
    except (KeyboardInterrupt, SimCrash, Exception) as e:
        kind, text = classify_exception(e)
        if kind == "sut":
            res.violation = (
                f"unexpected-exception:{text}",
                f"unexpected {type(e).__name__}: {e}",
                traceback.format_exc()[-3000:],
            )
            sim.event("violation", text)
        elif isinstance(e, (OSError, MemoryError, SimCrash)) or (isinstance(e, KeyboardInterrupt)):
            res.harness = traceback.format_exc()
        else:
            # what the code under test handed out could not even be interpreted by the oracle
            # (a missing status item, a wrong shape, ...)
            res.violation = (
                f"unusable-outcome:{text}",
                f"an outcome could not be interpreted: {type(e).__name__}: {e}",
                traceback.format_exc()[-3000:],
            )
            sim.event("violation", text)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        for c in reversed(sim.cleanup):
            try:
                c()
            except Exception as e:
                res.harness = res.harness or f"cleanup failed: {e!r}"
        kernel.activate(None)
        os.chdir(home)
        shutil.rmtree(sim.state["cwd"], ignore_errors=True)
    res.digest = sim.sig.hexdigest()[:24]
    res.sched = sim.sched_sig.hexdigest()[:24]
    res.rec = sim.ch.rec
    res.trace = sim.trace
    res.faults = sim.fault_counts
    res.probes = sim.probes
    res.sim_time = sim.sim_time
    res.events = sim.n_events
    res.checks = sim.checks
    return res


# --------------------------------------------------------------------------- known findings


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def known_match(known, prop, violation):
    key, message, _ = violation
    for k in known:
        if k["property"] == prop and k.get("status") == "open" and k["key"] == key and k.get("contains", "") in message:
            return k
    return None


# ----------------------------------------------------------------------------------- worker


def worker(conn, prop, plan, master, wid, nworkers, stop_index, deadline, known):
    """Run the share of this worker.  `plan` is a list of (order, scenario name, n_runs)."""
    try:
        props = _registry()
        scen_fns = dict((s["name"], s["fn"]) for s in props[prop]["scenarios"])
        agg = {
            "runs": 0,
            "fault_free_runs": 0,
            "events": 0,
            "checks": 0,
            "sim_time": 0.0,
            "faults": {},
            "probes": {},
            "digests": set(),
            "scheds": set(),
            "per_scenario": {},
            "sample_digests": {},
            "samples": [],
            "known": {},
            "capped": False,
        }
        done = False
        # the flat list of all runs, interleaving the scenarios
        flat = []
        for name, n in plan:
            flat.extend((i / n, name, i) for i in range(n))
        flat.sort()
        for pos, (_, name, i) in enumerate(flat):
            if pos % nworkers != wid:
                continue
            if pos > stop_index.value:
                break
            if time.monotonic() > deadline:
                agg["capped"] = True
                break
            seed = run_seed(master, prop, name, i)
            r = execute(scen_fns[name], seed=seed, faults=faults_for(i))
            agg["runs"] += 1
            agg["fault_free_runs"] += 0 if faults_for(i) else 1
            agg["events"] += r.events
            agg["checks"] += r.checks
            agg["sim_time"] += r.sim_time
            agg["per_scenario"][name] = agg["per_scenario"].get(name, 0) + 1
            for k, v in r.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in r.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            agg["digests"].add(r.digest)
            agg["scheds"].add(r.sched)
            if pos % 97 == 0:
                agg["sample_digests"][f"{name}:{i}"] = r.digest
            if len(agg["samples"]) < 1 and r.faults:
                agg["samples"].append({"scenario": name, "index": i, "seed": seed, "trace": [" ".join(t) for t in r.trace[:40]]})
            if r.harness is not None:
                conn.send(("harness", pos, name, i, r.harness))
                with stop_index.get_lock():
                    stop_index.value = min(stop_index.value, pos)
                done = True
                break
            if r.violation is not None:
                k = known_match(known, prop, r.violation)
                if k is not None:
                    agg["known"][k["id"]] = agg["known"].get(k["id"], 0) + 1
                    continue
                conn.send(("violation", pos, name, i, r.violation, r.rec))
                with stop_index.get_lock():
                    stop_index.value = min(stop_index.value, pos)
                done = True
                break
        conn.send(("done", agg))
    except BaseException:
        conn.send(("harness", -1, "?", -1, traceback.format_exc()))
    finally:
        conn.close()


# ---------------------------------------------------------------------------------- shrink


def shrink(fn, rec, faults, key, budget_runs=600, budget_s=60):
    """Lower a recorded choice sequence as long as the same violation shows up."""
    t_end = time.monotonic() + budget_s
    runs = 0
    best = list(rec)
    best_res = None

    def attempt(cand):
        nonlocal runs, best, best_res
        if runs >= budget_runs or time.monotonic() > t_end:
            return False
        runs += 1
        r = execute(fn, replay=cand, faults=faults)
        if r.violation is not None and r.violation[0] == key:
            new = list(r.rec)
            while new and new[-1] == 0:
                new.pop()
            if (len(new), sum(new)) < (len(best), sum(best)) or best_res is None:
                best, best_res = new, r
                return True
        return False

    attempt(list(rec))
    if best_res is None:
        return None, None, runs
    improved = True
    while improved and runs < budget_runs and time.monotonic() < t_end:
        improved = False
        # zero whole blocks, then delete blocks, then lower single values
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                blk = best[i : i + size]
                if any(blk):
                    if attempt(best[:i] + [0] * len(blk) + best[i + size :]):
                        improved = True
                        continue
                i += size
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                    continue
                i += size
            if runs >= budget_runs or time.monotonic() > t_end:
                break
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1 :]):
                        improved = True
                        break
    return best, best_res, runs


# ----------------------------------------------------------------------------------- check


def repo_state():
    try:
        d = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
        return d[:12]
    except Exception:
        return "?"


def cmd_check(args):
    t0 = time.monotonic()
    master = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    props = _registry()
    prop = args.property
    spec = props[prop]
    known = load_known()
    scale = args.scale
    plan = []
    for s in spec["scenarios"]:
        n = s["quick"] if tier == "quick" else s.get("thorough", s["quick"] * 12)
        plan.append((s["name"], max(3, int(n * scale))))
    ctx = mp.get_context("fork")
    nworkers = args.workers or min(8, os.cpu_count() or 1)
    stop_index = ctx.Value("q", 2**62)
    deadline = time.monotonic() + TIER_CAP[tier]
    procs = []
    for w in range(nworkers):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(b, prop, plan, master, w, nworkers, stop_index, deadline, known))
        p.start()
        b.close()
        procs.append((p, a))
    violations, harness, aggs = [], [], []
    hard_deadline = deadline + RUN_WALL_LIMIT + 60
    for p, a in procs:
        while True:
            try:
                if not a.poll(max(0.1, hard_deadline - time.monotonic())):
                    harness.append((-1, "?", -1, "a worker process did not answer"))
                    p.kill()
                    break
                msg = a.recv()
            except EOFError:
                break
            if msg[0] == "violation":
                violations.append(msg[1:])
            elif msg[0] == "harness":
                harness.append(msg[1:])
            elif msg[0] == "done":
                aggs.append(msg[1])
        p.join(10)
        if p.exitcode not in (0, None):
            harness.append((-1, "?", -1, f"a worker process ended with exit code {p.exitcode}"))

    tot = merge(aggs)
    # determinism self-check: repeat some of the runs in this process, in another order
    scen_fns = dict((s["name"], s["fn"]) for s in spec["scenarios"])
    mism = []
    if not violations and not harness:
        keys = sorted(tot["sample_digests"])
        random.Random(7).shuffle(keys)
        for k in keys[:12]:
            name, i = k.rsplit(":", 1)
            r = execute(scen_fns[name], seed=run_seed(master, prop, name, int(i)), faults=faults_for(int(i)))
            if r.digest != tot["sample_digests"][k]:
                mism.append(k)
    wall = time.monotonic() - t0

    exit_code = 0
    replay_path = None
    vinfo = None
    if violations:
        violations.sort(key=lambda v: v[0])
        pos, name, i, viol, rec = violations[0]
        fn = scen_fns[name]
        seed = run_seed(master, prop, name, i)
        best, bres, nruns = shrink(fn, rec, faults_for(i), viol[0])
        if best is None:
            best, bres = rec, execute(fn, replay=rec, faults=faults_for(i))
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        tag = "".join(c if c.isalnum() else "-" for c in viol[0])[:60]
        replay_path = os.path.join(OUT, "replays", f"{prop}-{name}-{tag}.json")
        v = bres.violation or viol
        vinfo = {
            "property": prop,
            "scenario": name,
            "index": i,
            "master_seed": master,
            "run_seed": seed,
            "faults_on": faults_for(i),
            "key": v[0],
            "message": v[1],
            "details": v[2] if isinstance(v[2], (str, int, float, list, dict, type(None))) else repr(v[2]),
            "choices": best,
            "choices_before_minimisation": len(rec),
            "minimisation_runs": nruns,
            "digest": bres.digest,
            "faults": bres.faults,
            "trace": [" ".join(t) for t in bres.trace],
            "repo": repo_state(),
        }
        with open(replay_path, "w") as f:
            json.dump(vinfo, f, indent=1)
        exit_code = 1
    write_evidence(prop, spec, tier, master, tot, wall, mism, vinfo, plan, nworkers, len(violations))

    for kid, n in sorted(tot["known"].items()):
        k = [x for x in known if x["id"] == kid][0]
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen in {n} runs)")
    print(
        f"{prop} [{tier}] runs={tot['runs']} distinct={len(tot['digests'])} interleavings={len(tot['scheds'])}"
        f" checks={tot['checks']} faults={sum(tot['faults'].values())} wall={wall:.1f}s"
        + (" TIME-CAPPED" if tot["capped"] else "")
    )
    if violations:
        print(f"violated: {vinfo['key']}: {vinfo['message']}")
        print(f"scenario={vinfo['scenario']} seed={vinfo['run_seed']} faults={vinfo['faults']}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if harness:
        for h in harness[:3]:
            print("HARNESS-ERROR", h[0], h[1], h[2])
            print(h[3])
        return 2
    if mism:
        print("warning: runs which did not repeat exactly:", mism)
    return exit_code


def merge(aggs):
    tot = {
        "runs": 0,
        "fault_free_runs": 0,
        "events": 0,
        "checks": 0,
        "sim_time": 0.0,
        "faults": {},
        "probes": {},
        "digests": set(),
        "scheds": set(),
        "per_scenario": {},
        "sample_digests": {},
        "samples": [],
        "known": {},
        "capped": False,
    }
    for a in aggs:
        for k in ("runs", "fault_free_runs", "events", "checks", "sim_time"):
            tot[k] += a[k]
        for k in ("faults", "probes", "per_scenario", "known"):
            for kk, v in a[k].items():
                tot[k][kk] = tot[k].get(kk, 0) + v
        tot["digests"] |= a["digests"]
        tot["scheds"] |= a["scheds"]
        tot["sample_digests"].update(a["sample_digests"])
        tot["samples"].extend(a["samples"])
        tot["capped"] = tot["capped"] or a["capped"]
    return tot


def write_evidence(prop, spec, tier, master, tot, wall, mism, vinfo, plan, nworkers, nviol):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": master,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(tot["digests"]),
            "rule": "a simulated run is distinct by the SHA-256 of its complete event sequence (workload operations,"
            " task executions and deliveries per simulated process, faults); runs with equal digests count once",
            "samples": tot["samples"][:4],
            "distinct_interleavings": len(tot["scheds"]),
            "interleaving_measure": "SHA-256 of the sequence of (execute|deliver, simulated process, task) decisions"
            " of the scheduler, or of the equivalent decisions of the simulated environments/disk/clock",
            "simulated_runs": tot["runs"],
            "simulated_runs_planned": {n: c for n, c in plan},
            "simulated_runs_per_scenario": tot["per_scenario"],
            "fault_free_runs": tot["fault_free_runs"],
            "seeds_per_hour": int(tot["runs"] / max(wall, 1e-6) * 3600),
            "simulated_time_s": round(tot["sim_time"], 3),
            "simulated_events": tot["events"],
            "oracle_evaluations": tot["checks"],
            "faults_injected": dict(sorted(tot["faults"].items())),
            "situations_reached": dict(sorted(tot["probes"].items())),
            "repeat_check_mismatches": mism,
            "known_findings_seen": tot["known"],
            "time_capped": tot["capped"],
            "workers": nworkers,
            "real_components": spec.get("real", []),
            "stub_components": spec.get("stub", []),
            "repo_head": repo_state(),
        },
        "wall_s": round(wall, 3),
        "assumptions": spec.get("assumptions", []),
        "violations": nviol,
    }
    if vinfo is not None:
        ev["coverage"]["violation"] = {k: vinfo[k] for k in ("scenario", "run_seed", "key", "message")}
    path = os.path.join(OUT, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def cmd_replay(args):
    with open(args.file) as f:
        info = json.load(f)
    props = _registry()
    fn = [s["fn"] for s in props[info["property"]]["scenarios"] if s["name"] == info["scenario"]][0]
    r = execute(fn, replay=info["choices"], faults=info["faults_on"])
    for t in r.trace:
        print("  ", " ".join(t))
    if r.harness:
        print(r.harness)
        return 2
    if r.violation is None:
        print("the run ends without a violation")
        return 0
    print(f"{r.violation[0]}: {r.violation[1]}")
    if r.violation[2]:
        print(r.violation[2])
    same = r.violation[0] == info["key"] and r.digest == info["digest"]
    print("reproduced exactly" if same else "NOT the recorded violation/execution", r.digest, info["digest"])
    print(f"VIOLATION property={info['property']} replay={os.path.abspath(args.file)}")
    return 1


def cmd_one(args):
    props = _registry()
    master = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn = [s["fn"] for s in props[args.property]["scenarios"] if s["name"] == args.scenario][0]
    seed = run_seed(master, args.property, args.scenario, args.index)
    r = execute(fn, seed=seed, faults=faults_for(args.index))
    for t in r.trace:
        print("  ", " ".join(t))
    print("digest", r.digest, "events", r.events, "checks", r.checks, "faults", r.faults, "probes", r.probes)
    if r.harness:
        print("HARNESS", r.harness)
    if r.violation:
        print("VIOLATION", r.violation[0], r.violation[1])
        print(r.violation[2])
    return 0


def cmd_digests(args):
    """Print the digests of some runs (used for proving determinism across processes)."""
    props = _registry()
    master = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = {}
    for prop in args.properties or sorted(props):
        for s in props[prop]["scenarios"]:
            idx = list(range(args.n))
            if args.reverse:
                idx.reverse()
            for i in idx:
                r = execute(s["fn"], seed=run_seed(master, prop, s["name"], i), faults=faults_for(i))
                out[f"{prop}:{s['name']}:{i}"] = [r.digest, len(r.rec), r.violation[0] if r.violation else None, r.harness]
    json.dump(out, sys.stdout)
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=None)
    c.add_argument("--workers", type=int, default=0)
    c.add_argument("--scale", type=float, default=1.0)
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("scenario")
    o.add_argument("index", type=int)
    d = sub.add_parser("digests")
    d.add_argument("properties", nargs="*")
    d.add_argument("-n", type=int, default=5)
    d.add_argument("--reverse", action="store_true")
    args = ap.parse_args()
    sys.exit({"check": cmd_check, "replay": cmd_replay, "one": cmd_one, "digests": cmd_digests}[args.cmd](args))


if __name__ == "__main__":
    main()
