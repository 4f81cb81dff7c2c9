"""Loggers: C18 C19 C33."""

import contextlib
import copy
import io
import math
import os
import pickle
import re

import numpy as np
import torch
from torch import nn

from evotorch import Solution
from evotorch.algorithms import PGPE, SNES, GeneticAlgorithm
from evotorch.logging import (
    Logger,
    MlflowLogger,
    NeptuneLogger,
    PandasLogger,
    PicklingLogger,
    SacredLogger,
    ScalarLogger,
    StdOutLogger,
    WandbLogger,
)
from evotorch.neuroevolution import GymNE, NEProblem, VecGymNE

from .. import algs, backends, kernel, simdisk, simenv, work  # noqa: F401 (simenv registers its environments)
from ..algs import draw_conf, freeze, make_alg, make_made
from ..backends import TrackerError
from ..kernel import INJECTED, InjectedError, SimCrash
from ..work import plain, row_key, same
from .evaluation import draw_cluster
from .search import disturb


def is_scalar(v):
    if isinstance(v, Solution):
        return False
    if isinstance(v, (torch.Tensor, np.ndarray)):
        return v.ndim == 0
    return not isinstance(v, (list, tuple)) and not (hasattr(v, "__len__") and hasattr(v, "__getitem__") and not isinstance(v, (str, bytes)))


def scalars(status):
    return {k: status[k] for k in status if is_scalar(status[k])}


class Extra:
    """A user's after-step hook with items of several types, some of them changed later on."""

    def __init__(self, kinds):
        self.kinds, self.n = kinds, 0
        self.box = {"n": 0}
        self.cell = torch.zeros(())
        self.seq = [0, 0]

    def __call__(self):
        self.n += 1
        self.box["n"] = self.n
        self.cell += 1
        self.seq[0] = self.n
        d = {}
        if "int" in self.kinds:
            d["x_int"] = self.n * 10
        if "text" in self.kinds:
            d["x_text"] = f"s{self.n}"
        if "box" in self.kinds:
            d["x_box"] = self.box
        if "cell" in self.kinds:
            d["x_cell"] = self.cell
        if "seq" in self.kinds:
            d["x_seq"] = self.seq
        if "vec" in self.kinds:
            d["x_vec"] = torch.full((3,), float(self.n))
        return d


class Recorder:
    """Placed before every logger: what the status was in each generation."""

    def __init__(self):
        self.rows = []

    def __call__(self, status):
        self.rows.append({k: copy.deepcopy(v) for k, v in status.items() if is_scalar(v)})


def due(n, interval, first):
    """Is the n-th generation (1-based) to be recorded?"""
    return (n - 1) % interval == 0 if first else n % interval == 0


class Picky(ScalarLogger):
    """A user-written logger."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.seen = []

    def _filter(self, status):
        return {k: v for k, v in super()._filter(status).items() if not k.startswith("x_")}

    def _log(self, status):
        self.seen.append(copy.deepcopy(status))


class Flaky(Logger):
    """A user-written logger which sometimes fails."""

    def __init__(self, *a, fail_at=(), **kw):
        super().__init__(*a, **kw)
        self.fail_at, self.n = set(fail_at), 0

    def _log(self, status):
        self.n += 1
        if self.n in self.fail_at:
            kernel.current().fault("logger_error")
            raise kernel.current().ch.pick(INJECTED)("logger")


class Out(io.StringIO):
    """Standard output, which may be a broken pipe."""

    def __init__(self):
        super().__init__()
        self.sim, self.rate = None, 0.0
        self.left = 0

    def write(self, s):
        if self.left > 0 and self.sim.ch.chance(self.rate):
            self.left -= 1
            self.sim.fault("stdout_error")
            raise BrokenPipeError(32, "Broken pipe")
        return super().write(s)


def eq(a, b):
    fa, fb = freeze_any(a), freeze_any(b)
    return fa == fb


def freeze_any(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze_any(x)) for k, x in v.items()))
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, torch.Tensor) and v.ndim == 0:
        return ("t", repr(float(v)))
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return ("f", repr(float(v)))
    return freeze(v)


def parse_blocks(text):
    """The blocks printed by a StdOutLogger: lists of (key, text of value)."""
    blocks = []
    for chunk in text.split("\n\n"):
        rows = []
        for line in chunk.split("\n"):
            if " : " in line:
                k, v = line.split(" : ", 1)
                rows.append((k.strip(), v))
        if rows:
            blocks.append(rows)
    return blocks


def c18_loggers(sim):
    ch = sim.ch
    draw_cluster(sim)
    conf = draw_conf(sim, max_obj=2, objects=True)
    made = make_made(conf, num_actors=ch.pick([0, 0, 2]))
    alg = make_alg(conf, made)
    rec = Recorder()
    alg.log_hook.append(rec)
    kinds = [k for k in ("int", "text", "box", "cell", "seq", "vec") if ch.chance(0.4)]
    if kinds:
        alg.after_step_hook.append(Extra(kinds))
    loggers = []  # (kind, object, interval, first, position, generations it has been told about)

    out = Out()
    out.sim = sim

    def attach():
        kind = ch.pick(["pandas", "stdout", "picky", "flaky"])
        interval = ch.rng_int(1, 4)
        first = ch.chance(0.4)
        kw = dict(interval=interval, after_first_step=first)
        fails = ()
        if kind == "pandas":
            lg = PandasLogger(alg, **kw)
        elif kind == "stdout":
            if any(l["kind"] == "stdout" for l in loggers):
                return
            keys = ch.pick([None, ("iter", "mean_eval"), ("best_eval", "missing")])
            if keys is not None:
                kw["leading_keys"] = keys
            lg = StdOutLogger(alg, **kw)
        elif kind == "picky":
            lg = Picky(alg, **kw)
        else:
            fails = [ch.rng_int(1, 3)] if sim.faults_on else []
            lg = Flaky(alg, fail_at=fails, **kw)
        loggers.append(
            dict(kind=kind, lg=lg, interval=interval, first=first, told=[], due=[], failed=set(), keys=kw.get("leading_keys", ("iter",)), fails=set(fails), n=0)
        )
        sim.log("attach", kind, interval, first)

    for _ in range(ch.rng_int(1, 4)):
        attach()
    steps = 0
    for _ in range(ch.rng_int(1, 7)):
        if ch.chance(0.15):
            attach()
        if sim.faults_on:
            disturb(sim)
            if ch.chance(0.15):
                out.left, out.rate = 1, 0.1
        use_run = ch.chance(0.3)
        failed = None
        with contextlib.redirect_stdout(out):
            try:
                if use_run:
                    alg.run(1)
                else:
                    alg.step()
            except InjectedError:
                failed = "flaky"
            except BrokenPipeError:
                failed = "stdout"
        out.left = 0
        steps += 1
        sim.check(len(rec.rows) == steps, "log-hook", lambda: f"the log hook ran {len(rec.rows)} times in {steps} steps")
        for L in loggers:
            L["told"].append(steps)
            rec_now = due(len(L["told"]), L["interval"], L["first"])
            if rec_now:
                L["due"].append(steps)
                L["n"] += 1
                if L["kind"] == "flaky" and L["n"] in L["fails"]:
                    sim.check(failed == "flaky", "failure-hidden", "the error of a logger was not raised")
                    break
                if L["kind"] == "stdout" and failed == "stdout":
                    L["failed"].add(steps)
                    break
        else:
            sim.check(failed is None, "false-failure", f"step failed ({failed}) without a failing logger")
        if sim.faults_on and ch.chance(0.1):
            # a copy of the whole search goes its own way
            with contextlib.redirect_stdout(io.StringIO()):
                c = copy.deepcopy(alg)
                try:
                    c.step()
                except InjectedError:
                    pass
            sim.probe("copy-stepped")
    # what was recorded
    for L in loggers:
        want = [rec.rows[g - 1] for g in L["due"]]
        sim.probe("records", len(want))
        if L["kind"] == "pandas":
            if not want:
                continue
            df = L["lg"].to_dataframe()
            iters = [int(i) for i in df.index]
            sim.check(iters == [w["iter"] for w in want], "recorded-generations", lambda: f"generations {iters} recorded, expected {L['due']} (interval {L['interval']}, first {L['first']})")
            cols = set(df.columns)
            allk = set().union(*[set(w) for w in want]) - {"iter"}
            sim.check(cols == allk, "recorded-items", lambda: f"columns {sorted(cols)}, expected {sorted(allk)}")
            for g, w in enumerate(want):
                for k, v in w.items():
                    if k == "iter":
                        continue
                    got = df.iloc[g][k]
                    if v is None:  # a data frame shows it as missing
                        sim.check(got is None or got != got, "recorded-values", lambda: f"{k} is recorded as {got}, it was None")
                        continue
                    sim.check(eq(got, v), "recorded-values", lambda: f"{k} of generation {w['iter']} is recorded as {got}, it was {v}")
            df2 = L["lg"].to_dataframe(index=None)
            sim.check("iter" in df2.columns and list(df2["iter"]) == iters, "no-index", "to_dataframe(index=None) lost the iterations")
        elif L["kind"] == "picky":
            sim.check([s["iter"] for s in L["lg"].seen] == [w["iter"] for w in want], "recorded-generations", lambda: f"{[s['iter'] for s in L['lg'].seen]} recorded, expected {L['due']}")
            for s, w in zip(L["lg"].seen, want):
                exp = {k: v for k, v in w.items() if not k.startswith("x_")}
                sim.check(set(s) == set(exp) and all(eq(s[k], exp[k]) for k in exp), "recorded-values", lambda: f"recorded {s}, status was {exp}")
        elif L["kind"] == "stdout" and not L["failed"]:
            blocks = parse_blocks(out.getvalue())
            sim.check(len(blocks) == len(want), "printed-generations", lambda: f"{len(blocks)} blocks were printed, expected {len(want)}")
            for b, w in zip(blocks, want):
                exp = dict(w)
                d = dict(b)
                sim.check(len(d) == len(b) and set(d) == set(exp), "printed-items", lambda: f"printed {sorted(d)}, expected {sorted(exp)}")
                lead = [k for k in L["keys"] if k in exp]
                sim.check([k for k, _ in b][: len(lead)] == lead, "printed-order", lambda: f"printed order {[k for k, _ in b]}, leading keys {lead}")
                for k, v in exp.items():
                    sim.check(d[k] == str(v), "printed-values", lambda: f"{k} was printed as {d[k]!r}, it was {v}")


# ------------------------------------------------------------------------------------ C33


def c33_trackers(sim):
    ch = sim.ch
    draw_cluster(sim)
    conf = draw_conf(sim, ("SNES", "PGPE", "GA", "CMAES", "CEM", "XNES", "Cosyne"), max_obj=2)
    made = make_made(conf, num_actors=ch.pick([0, 0, 2]))
    alg = make_alg(conf, made)
    rec = Recorder()
    alg.log_hook.append(rec)
    if ch.chance(0.5):
        alg.after_step_hook.append(Extra([k for k in ("int", "seq", "vec") if ch.chance(0.5)]))
    sim.tracker = []
    kinds = ch.sample(["sacred", "mlflow", "mlflow.client", "neptune", "wandb"], ch.rng_int(1, 3))
    ls = []
    for kind in kinds:
        interval, first = ch.rng_int(1, 4), ch.chance(0.4)
        kw = dict(interval=interval, after_first_step=first)
        L = dict(kind=kind, interval=interval, first=first, group=None, result=None, due=[], failed=set(), told=0)
        if kind == "sacred":
            L["result"] = ch.pick([None, "mean_eval" if len(conf["senses"]) == 1 or "obj_index" in conf["args"] else None])
            run = ch.pick([backends.Run, backends.Experiment])()
            SacredLogger(alg, run, L["result"], **kw)
        elif kind == "mlflow":
            MlflowLogger(alg, **kw)
        elif kind == "mlflow.client":
            run = ch.pick([backends.MlflowRun("r7"), "r7"])
            MlflowLogger(alg, backends.MlflowClient(), run, **kw)
        elif kind == "neptune":
            L["group"] = ch.pick([None, "grp"])
            if ch.chance(0.5):
                NeptuneLogger(alg, backends.NeptuneRun("mine"), group=L["group"], **kw)
                L["name"] = "mine"
            else:
                n0 = len(sim.tracker)
                lg = NeptuneLogger(alg, group=L["group"], project="p", **kw)
                L["name"] = "created"
                sim.check(sim.tracker[n0:] == [("neptune.init", (("project", "p"),))], "init", lambda: f"neptune was initialised as {sim.tracker[n0:]}")
                sim.check(lg.run.name == "created", "init", "the logger does not expose its run")
        else:
            L["group"] = ch.pick([None, "grp"])
            init = ch.pick([True, False])
            n0 = len(sim.tracker)
            WandbLogger(alg, init, group=L["group"], **({"project": "q"} if init else {}), **kw)
            want = [("wandb.init", (("project", "q"),))] if init else []
            sim.check(sim.tracker[n0:] == want, "init", lambda: f"wandb was initialised as {sim.tracker[n0:]}")
        ls.append(L)
        sim.log(kind, interval, first, L["group"])
    armed = {"left": 0}

    def fault(name, payload):
        if armed["left"] > 0 and sim.ch.chance(0.2):
            armed["left"] -= 1
            sim.fault("tracker_unavailable", name)
            raise TrackerError(name)

    sim.tracker_fault = fault
    start = len(sim.tracker)
    pos = start
    for g in range(1, ch.rng_int(1, 7) + 1):
        armed["left"] = 1 if sim.faults_on and ch.chance(0.25) else 0
        before = armed["left"]
        failed = False
        try:
            alg.run(1) if ch.chance(0.3) else alg.step()
        except TrackerError:
            failed = True
        hit = before - armed["left"]
        sim.check(failed == bool(hit), "failure-hidden", "the error of an unavailable tracker was not raised")
        w = rec.rows[g - 1]
        exp = dict(w)
        calls = sim.tracker[pos:]
        pos = len(sim.tracker)
        # the calls of this generation, logger after logger
        i = 0
        stopped = False
        for L in ls:
            if stopped:
                break
            L["told"] += 1
            if not due(L["told"], L["interval"], L["first"]):
                continue
            n = lambda k: k if L["group"] is None else L["group"] + "/" + k
            if L["kind"] == "sacred":
                want = [("sacred.scalar", k, v) for k, v in exp.items()]
                if L["result"]:
                    want.append(("sacred.result", exp[L["result"]]))
            elif L["kind"] == "mlflow":
                want = [("mlflow.metrics", exp, g)]
            elif L["kind"] == "mlflow.client":
                want = [("mlflow.client", "r7", k, v, g) for k, v in exp.items()]
            elif L["kind"] == "neptune":
                want = [("neptune", L["name"], n(k), v) for k, v in exp.items()]
            else:
                want = [("wandb.log", {n(k): v for k, v in exp.items()})]
            got = calls[i : i + len(want)]
            if L["kind"].startswith("mlflow"):
                # the step number is the number of generations this logger was told about
                want = [x[:-1] + (L["told"],) for x in want]

            def norm(x):
                if L["kind"] in ("sacred", "neptune", "wandb"):
                    # an explicit step number is no harm as long as it is the right one
                    full = {"sacred.scalar": 4, "sacred.result": 2, "neptune": 5, "wandb.log": 3}[x[0]]
                    if len(x) == full and x[0] != "sacred.result":
                        if x[-1] not in (None, g, g - 1):
                            return ("wrong-step",) + x
                        x = x[:-1]
                return tuple(freeze_any(y) for y in x)

            if failed and len(calls) < i + len(want):
                # this is where the tracker failed: what was sent is a part of what was due
                rest = [norm(x) for x in calls[i:]]
                pool = [norm(x) for x in want]
                sim.check(all(r in pool for r in rest), "wrong-call", lambda: f"{L['kind']}: sent {calls[i:]}, due was {want}")
                stopped = True
                i = len(calls)
                continue
            a, b = sorted(map(repr, map(norm, got))), sorted(map(repr, map(norm, want)))
            sim.check(a == b, "wrong-calls", lambda: f"{L['kind']} in generation {g}: sent {got}, due was {want}")
            sim.probe("sent-" + L["kind"])
            i += len(want)
        sim.check(i == len(calls), "superfluous-calls", lambda: f"generation {g}: nobody was due to send {calls[i:]}")
    sim.tracker_fault = None


# ------------------------------------------------------------------------------------ C19


class NetProblem(NEProblem):
    """A tiny neuroevolution problem: the saved files hold a policy."""

    def _evaluate_network(self, net):
        key = row_key(nn.utils.parameters_to_vector(net.parameters()))
        work.note_eval(key)
        return torch.as_tensor(work.pure_fitness(key, 0, 1), dtype=torch.float32)

    def to_policy(self, x):
        return self.make_net(x)


DEFAULT_ITEMS = ("center", "best", "pop_best", "median_eval", "mean_eval", "pop_best_eval")


def picture(v):
    if isinstance(v, Solution):
        v = v.values
    return freeze_any(v) if not isinstance(v, torch.Tensor) or v.ndim else freeze_any(v)


def pictures(data, want):
    got = {k: picture(v) for k, v in data.items() if k in want and k != "obs_stats"}
    if "obs_stats" in data:
        o = data["obs_stats"]
        got["obs_stats"] = (o.count, tuple(np.asarray(o.mean).tolist()), tuple(np.asarray(o.stdev).tolist()))
    return got


def loadable(path):
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except Exception:
        return None


def c19_files(sim):
    ch = sim.ch
    draw_cluster(sim)
    d = simdisk.disk(sim)
    net = ch.chance(0.45)
    normed = False
    if net:
        which = ch.draw(3)
        if which == 0:
            p = NetProblem("min", "Linear(2, 2) >> Tanh() >> Linear(2, 1)", initial_bounds=(-1.0, 1.0), seed=ch.draw(100))
        else:
            normed = ch.chance(0.7)
            p = (GymNE if which == 1 else VecGymNE)(
                "DstSim-v0",
                "Linear(2, 2) >> Tanh() >> Linear(2, 1)",
                env_config=dict(obs=2, act=1, limit=3),
                observation_normalization=normed,
                num_actors=ch.pick([0, 0, 2]),
            )
        kind = ch.pick(["SNES", "GA"])
        if kind == "SNES":
            alg = SNES(p, stdev_init=0.5, popsize=4)
        else:
            from evotorch.operators import GaussianMutation

            alg = GeneticAlgorithm(p, popsize=4, operators=[GaussianMutation(p, stdev=0.1)])
    else:
        conf = draw_conf(sim, max_obj=2, objects=True)
        made = make_made(conf, num_actors=ch.pick([0, 0, 2]))
        p = made.problem
        alg = make_alg(conf, made)
        kind = conf["kind"]
    interval = ch.rng_int(1, 4)
    first = ch.chance(0.4)
    zfill = ch.pick([6, 3])
    prefix = ch.pick(["run", None])
    items = ch.pick([None, "best_eval", ("iter", "best", "center")])
    mk = ch.pick([None, "best"]) if net else None
    sub = os.path.join(d.dir, ch.pick(["out", "a/b"]))
    kw = dict(interval=interval, after_first_step=first, zfill=zfill, prefix=prefix, directory=sub, verbose=ch.chance(0.5))
    if items is not None:
        kw["items_to_save"] = items
    if mk is not None:
        kw["make_policy_from"] = mk
    rec = []

    def snap(status):
        want = {}
        for k in (DEFAULT_ITEMS if items is None else ((items,) if isinstance(items, str) else items)):
            if k in alg.status:
                want[k] = picture(alg.status[k])
        pol = None
        if net:
            src = mk or ("center" if "center" in alg.status else "pop_best")
            s = alg.status[src]
            pol = tuple(plain(s.values if isinstance(s, Solution) else s).tolist())
        if normed:
            o = p.get_observation_stats()
            want["obs_stats"] = (o.count, tuple(np.asarray(o.mean).tolist()), tuple(np.asarray(o.stdev).tolist()))
        rec.append((want, pol))

    alg.log_hook.append(snap)
    lg = PicklingLogger(alg, **kw)
    sim.log(kind, net, interval, first, prefix, items, mk)
    sim.check(lg.last_generation is None and lg.last_file_name is None, "initial", "a file is announced before anything was saved")
    good = {}  # path -> (picture, policy): what a complete file must hold
    last = (None, None)
    told = 0
    out = io.StringIO()
    alive = True

    def check_disk():
        stray = os.listdir(sim.state["cwd"])
        sim.check(not stray, "stray-file", lambda: f"{stray} appeared outside of the given directory")
        # whatever carries the name of a results file is complete
        for f in os.listdir(sub):
            if f.endswith(".pickle"):
                sim.check(loadable(os.path.join(sub, f)) is not None, "incomplete-file", lambda: f"{f} is incomplete")
        for path, (want, pol) in good.items():
            data = loadable(path)
            sim.check(data is not None, "file-lost", lambda: f"{os.path.basename(path)} was saved completely, now it cannot be read")
            got = pictures(data, want)
            sim.check(got == want, "file-content", lambda: f"{os.path.basename(path)} holds {got}, expected {want}")
            extra = set(data) - set(want) - {"policy", "beginning_time", "now", "elapsed"}
            sim.check(not extra, "file-items", lambda: f"unexpected items {extra}")
            if pol is not None:
                v = nn.utils.parameters_to_vector(data["policy"].parameters())
                sim.check(tuple(v.tolist()) == pol, "file-policy", "the saved policy is not the network of the saved solution")
                sim.check(data["elapsed"] == data["now"] - data["beginning_time"], "file-times", "the saved times do not fit")
        if alive:
            g, f = lg.last_generation, lg.last_file_name
            sim.check((g, f) == last, "announced", lambda: f"announces generation {g} in {f}, last saved was {last}")
            if f is not None:
                sim.check(f in good, "announced-incomplete", lambda: f"announces {f}")
                data = lg.unpickle_last_file()
                sim.check(pictures(data, good[f][0]) == good[f][0], "unpickled", "unpickle_last_file returns something else")

    def expect_name(g):
        f = lg.last_file_name
        base = os.path.basename(f)
        sim.check(os.path.dirname(f) == sub, "directory", lambda: f"saved to {f}")
        tail = f"_generation{str(g).zfill(zfill)}.pickle"
        sim.check(base.endswith(tail) and (prefix is None or base == prefix + tail), "file-name", lambda: f"{base} for generation {g}")
        return f

    for _ in range(ch.rng_int(1, 5)):
        if sim.faults_on:
            disturb(sim)
        d.arm(1, 0.15)
        if not ch.chance(0.5):
            d.disarm()
        i0 = d.injected
        op = ch.pick(["step", "run", "save", "savename"])
        if op in ("save", "savename") and not rec:
            op = "step"
        n = ch.rng_int(1, 3) if op == "run" else 1
        g0 = alg.step_count
        out_mark = out.tell()
        failed = crashed = None
        files_before = sorted(os.listdir(sub))
        try:
            with contextlib.redirect_stdout(out):
                if op == "step":
                    alg.step()
                elif op == "run":
                    alg.run(n)
                elif op == "save":
                    r = lg.save()
                else:
                    r = lg.save(ch.pick(["mine.pickle", "other.pickle"]))
        except OSError as e:
            failed = e
        except SimCrash as e:
            crashed = e
        hit = d.injected > i0
        d.disarm()
        sim.check((failed is not None or crashed is not None) == hit, "write-error-hidden", lambda: f"{op}: a failed write was not reported" if hit else f"{op}: {failed}")
        # which saves have happened?
        saved_gens = []
        if op in ("step", "run"):
            for g in range(g0 + 1, alg.step_count + 1):
                told += 1
                if due(told, interval, first):
                    saved_gens.append(g)
            final_due = op == "run" and not hit and (not saved_gens or saved_gens[-1] < alg.step_count) and (last[0] is None or last[0] < alg.step_count)
            if hit:
                # the failing save is the last one which was due (or the final one)
                if saved_gens and saved_gens[-1] == alg.step_count:
                    saved_gens = saved_gens[:-1]
            if final_due:
                saved_gens.append(alg.step_count)
                sim.probe("final-saves")
            for g in saved_gens:
                name = None
                if g == saved_gens[-1] and not hit:
                    name = expect_name(g)
                else:
                    # only the last one is announced; derive the names of the others
                    cand = [f for f in os.listdir(sub) if f.endswith(f"_generation{str(g).zfill(zfill)}.pickle")]
                    sim.check(len(cand) == 1, "file-missing", lambda: f"no file of generation {g} among {os.listdir(sub)}")
                    name = os.path.join(sub, cand[0])
                good[name] = rec[g - 1]
                last = (g, name)
                sim.probe("saved")
        elif not hit:
            g = alg.step_count
            if op == "save":
                name = expect_name(g)
            else:
                name = lg.last_file_name
                sim.check(os.path.dirname(name) == sub and os.path.basename(name) in ("mine.pickle", "other.pickle"), "file-name", lambda: name)
            sim.check(r == name, "returned-name", lambda: f"save() returned {r}, announced is {name}")
            good[name] = rec[g - 1]
            last = (g, name)
            sim.probe("saved-by-hand")
        said = out.getvalue()
        sim.check(kw["verbose"] or "Saved to" not in said, "printed", "printed though not verbose")
        if hit:
            sim.probe("failed-save")
        if crashed is not None:
            alive = False
            sim.probe("crashed-while-saving")
            check_disk()
            break
        # a failed save is never announced
        for line in said[out_mark:].splitlines():
            if line.startswith("Saved to "):
                sim.check(line[len("Saved to ") :] in good, "announced-failed", lambda: f"printed {line!r}")
        check_disk()
        for f in os.listdir(sub):
            path = os.path.join(sub, f)
            if f not in files_before and not hit:
                sim.check(path in good, "unexpected-file", lambda: f"{f} appeared")
