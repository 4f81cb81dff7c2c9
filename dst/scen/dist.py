"""Distribution-based searches: C07 C08 C24, and restarting searches: C25."""

import copy
import math
import pickle

import torch

from evotorch import Problem, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, GeneticAlgorithm, PyCMAES
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.distributions import ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.logging import PandasLogger
from evotorch.operators import GaussianMutation
from evotorch.optimizers import get_optimizer_class

from .. import algs, kernel, refcma, refdist, simray, work
from ..algs import draw_conf, freeze, make_alg, make_made
from ..kernel import InjectedError
from ..refdist import F, Undefined, deviation
from ..work import Fit, keys_of, note_eval, plain, pure_fitness, row_key, same, splitting
from .evaluation import OUTAGES, draw_cluster
from .search import disturb

TOL = {torch.float64: 1e-7, torch.float32: 5e-3}


def cost_of(key, pattern):
    """How many simulator interactions it takes to evaluate a solution."""
    if pattern == 0:
        return 1
    h = int(abs(sum(key)) * 1000)
    return 1 + h % (3 if pattern == 1 else 11)


class GradProblem(Problem):
    """Records every batch of solutions it is asked to evaluate."""

    def __init__(self, fit, L, pattern=0, dtype=torch.float64, senses="min", **kw):
        super().__init__(senses, solution_length=L, initial_bounds=(-3.0, 3.0), dtype=dtype, **kw)
        self.fit = fit
        self.pattern = pattern
        self.made_here = 0

    def _evaluate_batch(self, batch):
        sim = kernel.current()
        rows = []
        for x in batch.values:
            k = row_key(x)
            note_eval(k)
            self.made_here += cost_of(k, self.pattern)
            rows.append(self.fit.expected(k))
        t = torch.tensor(rows, dtype=torch.float64).to(self.eval_dtype)
        work.record(sim, "gbatch", plain(batch.values), t)
        batch.set_evals(t)

    def _get_local_interaction_count(self):
        return self.made_here


class Totals:
    """An after-evaluation hook which reports the interactions made so far."""

    def __init__(self, pattern):
        self.pattern, self.total = pattern, 0

    def __call__(self, batch):
        self.total += sum(cost_of(k, self.pattern) for k in keys_of(batch))
        return {"total_interaction_count": self.total}


def watch_tasks(sim, cl):
    def on_task(actor, task, error):
        sim.ledger.append(("taskend", actor.index, task.name))

    cl.on_task = on_task


def tasks_since(sim, mark):
    """The pieces of work done by the workers: a list of lists of (values, evals)."""
    open_, done = {}, []
    for r in sim.ledger[mark:]:
        if r[0] == "gbatch":
            open_.setdefault(r[1], []).append((r[2], r[3]))
        elif r[0] == "taskend" and r[1] in open_:
            done.append(open_.pop(r[1]))
    return done, open_


def joined(task):
    return torch.cat([v for v, _ in task]), torch.cat([e for _, e in task])


def shares(popsize, na, cut, even):
    if "subbatch_size" in cut:
        s = cut["subbatch_size"]
        out = [s] * (popsize // s)
    else:
        k = cut.get("num_subbatches", na)
        out = [popsize // k + (1 if i < popsize % k else 0) for i in range(k)]
    if even:
        out = [x + (x % 2) for x in out]
    return out


def check_mirrored(sim, values, center, dtype):
    v = values.to(F)
    mid = (v[0::2] + v[1::2]) / 2
    scale = max(1.0, float(v.abs().max()))
    sim.check(
        float((mid - center.to(F)).abs().max()) <= TOL[dtype] * 0.1 * scale,
        "not-mirrored",
        lambda: f"pairs have the midpoints {mid.tolist()}, the center is {center.tolist()}",
    )


def check_sane(sim, values, center, spread):
    """Samples lie where the distribution can have put them."""
    if spread.ndim == 2:
        if float(torch.linalg.cond(spread.to(F))) > 1e3:
            return
        z = torch.linalg.solve(spread.to(F), (values.to(F) - center.to(F)).T).T
    else:
        z = (values.to(F) - center.to(F)) / spread.to(F)
    sim.check(bool((z.abs() < 9.0).all()), "not-from-distribution", lambda: f"normalised samples {z.tolist()}")


def compare_state(sim, ref, center, spread, dtype, key):
    c, s = ref.state.center, ref.state.spread
    sc = max(float(c.abs().max()), float(s.abs().max()), 1e-3)
    d1 = deviation(center, c, sc)
    sim.check(d1 <= TOL[dtype], key + "-center", lambda: f"the center is {plain(center).tolist()}, expected {c.tolist()}")
    d2 = deviation(spread, s, max(float(s.abs().max()), 1e-9))
    sim.check(d2 <= TOL[dtype], key + "-spread", lambda: f"the spread is {plain(spread).tolist()}, expected {s.tolist()}")


def explicit_start(sim, conf):
    """Give the search a known initial center."""
    ch = sim.ch
    conf["args"]["center_init"] = [0.5 * (i + 1) * (-1) ** i + 0.25 * ch.draw(5) for i in range(conf["L"])]
    return torch.tensor(conf["args"]["center_init"], dtype=conf["dtype"])


def reference(conf, center):
    a = dict(conf["args"])
    spread = refdist.initial_spread(conf["L"], a).to(conf["dtype"])
    return refdist.Reference(conf["kind"], conf["L"], a, center, spread)


# ------------------------------------------------------------------------------------ C07


def draw_shares(sim, conf, na, even):
    """Draw how the population is cut into tasks, every task having at least two solutions."""
    ch = sim.ch
    k = ch.draw(3)
    cut = {}
    low = 4 if conf["kind"] == "CEM" else 2
    if k == 1:
        cut = {"num_subbatches": ch.rng_int(1, 2 * na)}
        conf["popsize"] = ch.rng_int(low * cut["num_subbatches"], (low + 2) * cut["num_subbatches"])
    elif k == 2:
        s = ch.rng_int(low, low + 3)
        cut = {"subbatch_size": s}
        conf["popsize"] = s * ch.rng_int(1, 2 * na)
    else:
        conf["popsize"] = ch.rng_int(low * na, (low + 3) * na)
    return cut


def c07_gradients(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("PGPE", "SNES", "CEM", "XNES"), max_obj=2)
    center0 = explicit_start(sim, conf)
    na = ch.pick([2, 3, 4])
    even = conf["kind"] == "PGPE" and conf["args"]["symmetric"]
    cut = draw_shares(sim, conf, na, even)
    weighted = ch.pick([None, True, False])
    extra = {"distributed": True}
    if weighted is not None:
        extra["popsize_weighted_grad_avg"] = weighted
    fit = Fit(len(conf["senses"]), 0, conf["salt"])
    p = GradProblem(
        fit, conf["L"], dtype=conf["dtype"], senses=conf["senses"], num_actors=na, seed=conf["seed"] if ch.chance(0.5) else None, **cut
    )
    watch_tasks(sim, cl)
    made = work.Made(p, fit, "grad", conf["dtype"])
    alg = make_alg(conf, made, **extra)
    calls = []
    p.before_grad_hook.append(lambda: calls.append("before"))
    p.after_grad_hook.append(lambda results: calls.append(("after", len(results))) or {"n_grads": len(results)})
    cl.arm(2, stall=0.15)
    if sim.faults_on and ch.chance(0.3):
        cl.arm(1, stall=0.1, crash_before=0.03, crash_after=0.03, lost_result=0.03)
    j = conf["args"].get("obj_index", 0)
    maximize = conf["senses"][j] == "max"
    ref = reference(conf, center0)
    sim.log(conf["kind"], na, cut, conf["popsize"], weighted, conf["args"])
    sim.probe("kind-" + conf["kind"])
    for i in range(ch.rng_int(1, 4)):
        if sim.faults_on:
            disturb(sim)
        mark, f0, c0 = len(sim.ledger), len(cl.faulted), len(calls)
        try:
            alg.step()
        except OUTAGES:
            if all(k == "stall" for k, _ in cl.faulted[f0:]):
                raise
            sim.probe("failed-step")
            break
        sim.check(all(k == "stall" for k, _ in cl.faulted[f0:]), "failure-hidden", "a lost gradient was not reported")
        tasks, left = tasks_since(sim, mark)
        sim.check(not left, "unfinished-task", "the step ended before its tasks")
        want = shares(conf["popsize"], na, cut, even)
        got = [len(joined(t)[0]) for t in tasks]
        sim.check(sorted(got) == sorted(want), "wrong-shares", lambda: f"workers sampled {got} solutions, expected {want}")
        if len(set(want)) > 1:
            sim.probe("uneven-shares")
        sim.check(calls[c0:] == ["before", ("after", len(tasks))], "grad-hooks", lambda: f"gradient hooks were called as {calls[c0:]}")
        total = sum(got)
        try:
            avg, mean = {}, 0.0
            for t in tasks:
                v, e = joined(t)
                check_sane(sim, v, ref.state.center, ref.state.spread)
                if even:
                    check_mirrored(sim, v, ref.state.center, conf["dtype"])
                g = ref.gradients(v, e[:, j].tolist(), maximize)
                w = len(v) / total if weighted in (None, True) else 1 / len(tasks)
                for name in g:
                    avg[name] = avg.get(name, 0) + w * g[name]
                mean += float(e[:, j].to(F).sum())
            ref.update(avg)
            st = alg.status
            compare_state(sim, ref, st["center"], st["stdev"], conf["dtype"], "gradient")
        except Undefined:
            sim.probe("undefined")
            break
        mean /= total
        sim.check(
            abs(float(st["mean_eval"]) - mean) <= TOL[conf["dtype"]] * max(1.0, abs(mean)),
            "mean-eval",
            lambda: f"mean_eval is {st['mean_eval']}, the mean of all {total} fitnesses is {mean}",
        )
        sim.check(st["n_grads"] == len(tasks), "grad-hook-status", "the status lacks what the gradient hook returned")
        ref.state = refdist.State(plain(st["center"]), plain(st["stdev"]))
        sim.probe("distributed-steps")


def c07_direct(sim):
    """`sample_and_compute_gradients` itself."""
    ch = sim.ch
    cl = draw_cluster(sim)
    kind = ch.pick(["PGPE", "PGPE-asym", "SNES", "CEM"])
    L = ch.rng_int(1, 4)
    dtype = ch.pick([torch.float64, torch.float32])
    mu = torch.tensor([0.5 * i - 0.25 for i in range(L)], dtype=dtype)
    sg = torch.tensor([1.0 + 0.5 * i for i in range(L)], dtype=dtype)
    if kind == "PGPE":
        d = SymmetricSeparableGaussian({"mu": mu, "sigma": sg, "divide_mu_grad_by": "num_directions", "divide_sigma_grad_by": "num_directions"}, dtype=dtype)
    elif kind == "PGPE-asym":
        d = SeparableGaussian({"mu": mu, "sigma": sg, "divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_solutions"}, dtype=dtype)
    elif kind == "SNES":
        d = ExpSeparableGaussian({"mu": mu, "sigma": sg}, dtype=dtype)
    else:
        d = SeparableGaussian({"mu": mu, "sigma": sg, "parenthood_ratio": 0.5}, dtype=dtype)
    conf = {"kind": kind.split("-")[0], "L": L, "args": {"symmetric": kind == "PGPE", "parenthood_ratio": 0.5}}
    na = ch.pick([0, 2, 3])
    even = kind == "PGPE"
    if na:
        cut = draw_shares(sim, conf, na, even)
    else:
        cut = {}
        conf["popsize"] = 2 * ch.rng_int(2, 6)
    senses = ch.pick([["min"], ["max"], ["min", "max"]])
    j = ch.draw(len(senses)) if len(senses) > 1 or ch.chance(0.5) else None
    method = None if kind == "CEM" else ch.pick([None, "centered", "linear", "nes", "normalized", "raw"])
    if kind != "CEM":
        conf["args"]["ranking_method"] = method
        if kind == "SNES" and method in (None, "raw"):
            conf["args"]["ranking_method"] = method = "nes"
    with_stats = ch.pick([True, False])
    fit = Fit(len(senses), 0, ch.draw(3))
    n = conf["popsize"]
    grow = {}
    pattern = ch.draw(3)
    if ch.chance(0.4):
        grow["num_interactions"] = ch.rng_int(0, 4 * n * (1, 2, 6)[pattern])
        if ch.chance(0.6):
            grow["popsize_max"] = ch.pick([n, 2 * n, 3 * n + 1, n // 2 + 1])
    if na == 0 and ch.chance(0.2):
        # the distribution comes with a precision of its own
        d = d.modified_copy(dtype=torch.float64 if dtype == torch.float32 else torch.float32)
    p = GradProblem(fit, L, pattern=pattern, dtype=dtype, senses=senses, num_actors=na, **cut)
    watch_tasks(sim, cl)
    cl.arm(2, stall=0.15)
    ref = refdist.Reference(conf["kind"], L, {**conf["args"], "center_learning_rate": 1.0, "stdev_learning_rate": 1.0}, mu, sg)
    sim.log(kind, na, cut, n, senses, j, method, with_stats, grow)
    for _ in range(ch.rng_int(1, 3)):
        mark = len(sim.ledger)
        res = p.sample_and_compute_gradients(
            d,
            n,
            obj_index=j if j is None or ch.chance(0.5) else j - len(senses),
            ranking_method=method,
            with_stats=with_stats,
            ensure_even_popsize=even,
            **grow,
        )
        if na:
            tasks, _ = tasks_since(sim, mark)
            sim.check(isinstance(res, list), "result-type", "not a list")
            want = shares(n, na, cut, even)
        else:
            tasks = [[(r[2], r[3]) for r in sim.ledger[mark:] if r[0] == "gbatch"]]
            want = [n]
            sim.check(isinstance(res, dict), "result-type", "not a dictionary")
            res = [res]
        got = [len(t[0][0]) for t in tasks]
        sim.check(sorted(got) == sorted(want), "wrong-shares", lambda: f"{got} solutions were sampled, expected {want}")
        sim.check(len(res) == len(tasks), "result-count", lambda: f"{len(res)} results for {len(tasks)} tasks")
        for t in tasks:
            if not grow:
                sim.check(len(t) == 1, "wrong-growth", lambda: f"{len(t)} sub-populations although nothing asks for more than one")
                continue
            s = len(t[0][0])
            sim.check(all(len(v) == s for v, _ in t), "batch-size", "sub-populations of different sizes were sampled")
            costs = [sum(cost_of(row_key(x), pattern) for x in v) for v, _ in t]
            most = grow.get("popsize_max")
            need = batches_needed(costs, s, math.ceil(s / n * grow["num_interactions"]), None if most is None else math.ceil(s / n * most))
            sim.check(need == len(t), "wrong-growth", lambda: f"a share of {s}/{n} was sampled {len(t)} times with interactions {costs}; limits {grow}")
            if len(t) > 1:
                sim.probe("grown-" + ("distributed" if na else "alone"))
        left = list(range(len(res)))
        for t in tasks:
            v, e = joined(t)
            check_sane(sim, v, mu, sg)
            col = e[:, j or 0]
            try:
                g = ref.gradients(v, col.tolist(), senses[j or 0] == "max")
            except Undefined:
                continue
            hit = None
            for i in left:
                gr = res[i]["gradients"] if with_stats else res[i]
                sim.check(set(gr) == set(g), "gradient-names", lambda: f"{set(gr)} instead of {set(g)}")
                if all(deviation(plain(gr[n]), g[n], max(1.0, float(g[n].abs().max()))) <= TOL[dtype] for n in g):
                    if not with_stats or (
                        int(res[i]["num_solutions"]) == len(v)
                        and abs(float(res[i]["mean_eval"]) - float(col.to(F).mean())) <= TOL[dtype] * max(1.0, abs(float(col.to(F).mean())))
                    ):
                        hit = i
                        break
            sim.check(hit is not None, "gradient-missing", lambda: f"no result fits the {len(v)} samples of one task; expected {g}, got {res}")
            left.remove(hit)
        sim.probe("direct-calls")


# ------------------------------------------------------------------------------------ C08


def batches_needed(costs_of_batches, size, limit, size_max):
    """How many batches are sampled, given the interactions of each of them."""
    inter = n = k = 0
    for c in costs_of_batches:
        inter += c
        n += size
        k += 1
        if inter > limit or (size_max is not None and n >= size_max):
            return k
    return None


def c08_adaptive(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("PGPE", "SNES", "CEM", "XNES"))
    center0 = explicit_start(sim, conf)
    even = conf["kind"] == "PGPE" and conf["args"]["symmetric"]
    distributed = ch.chance(0.5)
    na = ch.pick([2, 3]) if distributed else ch.pick([0, 0, 2])
    if distributed:
        cut = draw_shares(sim, conf, na, even)
    else:
        cut = splitting(sim, ch, na) if na else {}
    pattern = ch.draw(3)
    n = conf["popsize"]
    limit = ch.rng_int(0, 6 * n * (1, 2, 6)[pattern])
    size_max = ch.pick([None, n, 2 * n, 3 * n + 1, n // 2 + 1])
    extra = {"num_interactions": limit, "distributed": distributed}
    if size_max is not None:
        extra["popsize_max"] = size_max
    fit = Fit(1, 0, conf["salt"])
    p = GradProblem(fit, conf["L"], pattern=pattern, dtype=conf["dtype"], senses=conf["senses"], num_actors=na, seed=conf["seed"], **cut)
    p.after_eval_hook.append(Totals(pattern))
    watch_tasks(sim, cl)
    made = work.Made(p, fit, "grad", conf["dtype"])
    alg = make_alg(conf, made, **extra)
    cl.arm(2, stall=0.15)
    maximize = conf["senses"][0] == "max"
    ref = reference(conf, center0)
    prev = None
    sim.log(conf["kind"], distributed, na, cut, n, limit, size_max, pattern)
    for i in range(ch.rng_int(1, 4)):
        mark = len(sim.ledger)
        if sim.faults_on:
            disturb(sim)
        alg.step()
        st = alg.status
        if distributed:
            tasks, left = tasks_since(sim, mark)
            sim.check(not left, "unfinished-task", "the step ended before its tasks")
            want = shares(n, na, cut, even)
            sizes = sorted(len(t[0][0]) for t in tasks)
            sim.check(sizes == sorted(want), "wrong-shares", lambda: f"sub-populations have {sizes} solutions, expected {want}")
            for t in tasks:
                s = len(t[0][0])
                sim.check(all(len(v) == s for v, _ in t), "batch-size", "a worker sampled sub-populations of different sizes")
                costs = [sum(cost_of(row_key(x), pattern) for x in v) for v, _ in t]
                need = batches_needed(costs, s, math.ceil(s / n * limit), None if size_max is None else math.ceil(s / n * size_max))
                sim.check(
                    need == len(t),
                    "wrong-growth",
                    lambda: f"a worker with a share of {s}/{n} sampled {len(t)} times with interactions {costs}; limit {limit}, size limit {size_max}",
                )
                if len(t) > 1:
                    sim.probe("grown-distributed")
            try:
                avg = {}
                for t in tasks:
                    v, e = joined(t)
                    g = ref.gradients(v, e[:, 0].tolist(), maximize)
                    for name in g:
                        avg[name] = avg.get(name, 0) + g[name] / len(tasks)
                ref.update(avg)
                compare_state(sim, ref, st["center"], st["stdev"], conf["dtype"], "gradient")
            except Undefined:
                break
            ref.state = refdist.State(plain(st["center"]), plain(st["stdev"]))
        else:
            pop = alg.population
            sim.check(len(pop) % n == 0, "batch-size", lambda: f"{len(pop)} solutions with sub-populations of {n}")
            v = plain(pop.values)
            costs = [
                sum(cost_of(row_key(x), pattern) for x in v[a : a + n]) for a in range(0, len(pop), n)
            ]
            need = batches_needed(costs, n, limit, size_max)
            sim.check(
                need == len(costs), "wrong-growth", lambda: f"{len(costs)} sub-populations with interactions {costs}; limit {limit}, size limit {size_max}"
            )
            work.check_evals(sim, made, pop, "wrong-result")
            sim.check(int(st["popsize"]) == len(pop), "popsize-status", lambda: f"popsize {st['popsize']} reported for {len(pop)} solutions")
            if len(costs) > 1:
                sim.probe("grown")
            done = len([r for r in sim.ledger[mark:] if r[0] == "eval"])
            sim.check(done == len(pop), "evaluations", lambda: f"{done} evaluations for {len(pop)} solutions")
            if prev is not None:
                try:
                    ref.update(ref.gradients(prev[0], prev[1].tolist(), maximize))
                    compare_state(sim, ref, st["center"], st["stdev"], conf["dtype"], "update")
                except Undefined:
                    break
            ref.state = refdist.State(plain(st["center"]), plain(st["stdev"]))
            check_sane(sim, v, ref.state.center, ref.state.spread)
            prev = (v, plain(pop.evals)[:, 0])


# ------------------------------------------------------------------------------------ C24


class Drift:
    """A user's own optimizer (without a state)."""

    def __init__(self, rate):
        self.rate = rate

    def ascent(self, g, **kw):
        return self.rate * g / (1 + g.abs())


def limits(sim, conf):
    """More combinations of limits than the usual configurations have."""
    ch = sim.ch
    a = conf["args"]
    if conf["kind"] in ("XNES", "CMAES"):
        return
    L = conf["L"]
    if ch.chance(0.7):
        start = float(refdist.initial_spread(L, a)[0])

        def maybe_vector(v):
            return [v * (1 + 0.125 * i) for i in range(L)] if ch.chance(0.3) else v

        for name, value in (("stdev_min", 0.9 * start * 0.7), ("stdev_max", 1.2 * start), ("stdev_max_change", ch.pick([0.02, 0.2, 1.0]))):
            a.pop(name, None)
            if ch.chance(0.6):
                a[name] = maybe_vector(value)
        if isinstance(a.get("stdev_min"), list):
            a["stdev_min"] = [0.8 * v for v in a["stdev_min"]]


def tensors(conf):
    for n in ("stdev_min", "stdev_max", "stdev_max_change"):
        if isinstance(conf["args"].get(n), list):
            conf["args"][n] = torch.tensor(conf["args"][n], dtype=conf["dtype"])


def c24_limits(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("PGPE", "SNES", "CEM", "XNES"), max_obj=2)
    center0 = explicit_start(sim, conf)
    limits(sim, conf)
    tensors(conf)
    if conf["kind"] in ("SNES", "XNES") and ch.chance(0.3):
        conf["args"]["optimizer"] = ch.pick(["clipup", "adam", "sgd"])
        conf["args"].setdefault("center_learning_rate", 0.5)
    a = conf["args"]
    if conf["kind"] != "CEM" and ch.chance(0.25):
        a["optimizer"], oc = ch.pick(
            [
                ("clipsgd", {"max_speed": 0.4}),
                ("clipsga", {"momentum": 0.5}),
                ("sga", {"momentum": 0.6, "dampening": 0.25}),
                ("sgd", {"momentum": 0.6, "nesterov": True}),
                ("adam", {"amsgrad": True, "beta1": 0.5, "beta2": 0.5}),
                ("adam", {"epsilon": 0.01}),
                (Drift(0.25), None),
            ]
        )
        a.setdefault("center_learning_rate", 0.5)
        a.pop("optimizer_config", None)
        if oc is not None:
            a["optimizer_config"] = oc
    if conf["kind"] in ("SNES", "XNES") and ch.chance(0.15):
        conf["popsize"] = None
    if "stdev_init" in a and ch.chance(0.4):
        a["stdev_init"] = torch.full((conf["L"],), a["stdev_init"], dtype=conf["dtype"])
    na = ch.pick([0, 0, 2, 3])
    made = make_made(conf, num_actors=na, **(splitting(sim, ch, na) if na else {}))
    dtype = conf["dtype"]
    ref = reference(conf, center0)
    given = a["center_init"] = torch.tensor(a["center_init"], dtype=dtype)
    alg = make_alg(conf, made)
    if ch.chance(0.3):
        if isinstance(a.get("stdev_init"), torch.Tensor):
            a["stdev_init"] *= 3.0
        given += 10.0  # (what becomes of the user's own tensors does not matter any more)
        sim.probe("arguments-reused")
    cl.arm(2, stall=0.1)
    j = a.get("obj_index", 0)
    maximize = conf["senses"][j] == "max"
    even = conf["kind"] == "PGPE" and a["symmetric"]
    sim.log(conf["kind"], na, a)
    sim.probe("kind-" + conf["kind"])
    prev = None
    loose = 1e-9 if dtype == torch.float64 else 1e-4
    change = a.get("stdev_max_change", 0.2 if conf["kind"] == "PGPE" else None)
    for i in range(ch.rng_int(2, 8)):
        if sim.faults_on:
            disturb(sim)
            if ch.chance(0.15):
                alg = pickle.loads(pickle.dumps(alg))
                sim.fault("process_crash")
        if isinstance(ref.follow.kind, str) and ch.chance(0.15):
            # the user changes a hyperparameter of the optimizer
            f = ref.follow
            v = ch.pick([0.05, 0.4])
            g = alg.optimizer.param_groups[0]
            f.conf.setdefault("max_speed", 2 * f.lr)
            g["lr"] = v
            f.lr = v
            if f.kind.startswith("clip") and ch.chance(0.5):
                g["max_speed"] = f.conf["max_speed"] = 0.3
            sim.probe("optimizer-changed")
        alg.step()
        st = alg.status
        center, spread = plain(st["center"]), plain(st["stdev"])
        sim.check(same(center, plain(alg.status["center"])), "status-moves", "reading the status twice gives two centers")
        pop = alg.population
        v = plain(pop.values)
        lam = conf["popsize"] or 4 + int(3 * math.log(conf["L"]))
        sim.check(len(pop) == lam, "popsize", lambda: f"{len(pop)} solutions, expected {lam}")
        if prev is None:
            compare_state(sim, ref, center, spread, dtype, "initial")
        else:
            old_c, old_s, pv, pe = prev
            eps = loose * float(old_s.abs().max())
            if change is not None:
                r = torch.as_tensor(change, dtype=F) * old_s.to(F).abs()
                sim.check(
                    bool(((spread.to(F) - old_s.to(F)).abs() <= r + eps).all()),
                    "change-limit",
                    lambda: f"the spread went from {old_s.tolist()} to {spread.tolist()} with stdev_max_change={change}",
                )
            for name, sign in (("stdev_min", 1), ("stdev_max", -1)):
                if a.get(name) is not None:
                    lim = torch.as_tensor(a[name], dtype=F)
                    sim.check(
                        bool((sign * (spread.to(F) - lim) >= -eps).all()), name, lambda: f"the spread is {spread.tolist()} with {name}={a[name]}"
                    )
                    if bool((sign * (spread.to(F) - lim) <= eps).any()):
                        sim.probe("at-" + name)
            try:
                ref.state = refdist.State(old_c, old_s)
                ref.update(ref.gradients(pv, pe[:, j].tolist(), maximize))
                compare_state(sim, ref, center, spread, dtype, "update")
                sim.probe("updates")
            except Undefined:
                break
        if spread.ndim == 1:
            if not bool((spread > 1e-6).all()):
                break
        ref.state = refdist.State(center, spread)
        check_sane(sim, v, center, spread)
        if even:
            check_mirrored(sim, v, center, dtype)
        prev = (center, spread, v, plain(pop.evals))


CMA_RATES = {
    "c_m": [0.5, 1.5],
    "c_sigma": [0.2, 0.5],
    "c_sigma_ratio": [0.5, 0.9],
    "damp_sigma": [1.5, 3.0],
    "damp_sigma_ratio": [0.6, 2.0],
    "c_c": [0.3, 0.6],
    "c_c_ratio": [0.5, 0.8],
    "c_1": [0.05, 0.2],
    "c_1_ratio": [0.5, 0.1],
    "c_mu": [0.1, 0.3],
    "c_mu_ratio": [0.5, 0.1],
}


def c24_cma(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("CMAES",), max_obj=2)
    a = conf["args"]
    size = ch.draw(4)
    if size == 1:
        conf["popsize"] = ch.rng_int(24, 60)
    elif size == 2:
        conf["L"] = ch.rng_int(6, 14)
    elif size == 3:
        conf["popsize"] = None
        conf["L"] = ch.rng_int(2, 12)
    lam = conf["popsize"] or 4 + int(3 * math.log(conf["L"]))
    if ch.chance(0.4):
        for n, values in CMA_RATES.items():
            if ch.chance(0.3):
                a[n] = ch.pick(values)
    if ch.chance(0.2):
        a["c_1_ratio"] = a["c_mu_ratio"] = ch.pick([0.05, 0.01])  # (the matrix is decomposed now and then)
    center0 = explicit_start(sim, conf)
    dtype = conf["dtype"]
    na = ch.pick([0, 0, 2, 3])
    made = make_made(conf, num_actors=na, **(splitting(sim, ch, na) if na else {}))
    alg = make_alg(conf, made)
    cl.arm(2, stall=0.1)
    j = a.get("obj_index", 0)
    maximize = conf["senses"][j] == "max"
    ref = refcma.RefCMA(conf["L"], lam, a, center0)
    sim.log(na, lam, a)
    if ref.every > 1:
        sim.probe("cma-lazy-decomposition")
    if ref.ds > 1.001 + ref.cs:
        sim.probe("cma-damped")
    for i in range(ch.rng_int(1, 12)):
        if sim.faults_on:
            disturb(sim)
            if ch.chance(0.15):
                alg = pickle.loads(pickle.dumps(alg))
                sim.fault("process_crash")
        alg.step()
        st = alg.status
        pop = alg.population
        sim.check(len(pop) == lam, "cma-popsize", lambda: f"{len(pop)} solutions, expected {lam}")
        e = plain(pop.evals)[:, j].tolist()
        if len(set(e)) < len(e):
            break
        ref.step(plain(pop.values), e, maximize)
        tol = max(1e-5, TOL[dtype]) * (1 + i)  # CMAES computes some constants with 32 bits
        sim.check(
            deviation(st["center"], ref.m, max(1.0, float(ref.m.abs().max()))) <= tol,
            "cma-center",
            lambda: f"step {i + 1}: the center is {plain(st['center']).tolist()}, expected {ref.m.tolist()}",
        )
        sim.check(
            abs(float(st["stepsize"]) - ref.sigma) <= tol * ref.sigma,
            "cma-stepsize",
            lambda: f"step {i + 1}: the step size is {float(st['stepsize'])}, expected {ref.sigma}",
        )
        if ref.margin < 1e-3:
            break
        sim.probe("cma-updates")


PYCMA = {  # the argument of PyCMAES, what pycma calls it, values
    "center_learning_rate": ("CMA_cmean", [0.5, 0.8]),
    "cov_learning_rate": ("CMA_on", [0.5, 0.25]),
    "rankmu_learning_rate": ("CMA_rankmu", [0.5, 0.8]),
    "rankone_learning_rate": ("CMA_rankone", [0.5, 0.1]),
    "stdev_min": ("minstd", [0.4, 0.8]),
    "stdev_max": ("maxstd", [1.1, 2.0]),
}


def c24_pycma(sim):
    """PyCMAES next to the pycma it wraps, told the same fitnesses."""
    import cma
    import numpy as np

    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("PyCMAES",), max_obj=2, bounded=False)
    dtype, n = conf["dtype"], conf["L"]
    seed = ch.seed()
    a = {"stdev_init": ch.pick([1.0, 0.5])}
    opts = {"verbose": -9}
    if ch.chance(0.7):
        conf["popsize"] = opts["popsize"] = ch.rng_int(4, 9)
    else:
        conf["popsize"] = None
    for name, (key, values) in PYCMA.items():
        if ch.chance(0.25):
            v = ch.pick(values)
            a[name] = v
            if name.startswith("stdev_") and ch.chance(0.4):
                v = np.array([v + 0.1 * i for i in range(n)])
                a[name] = ch.pick([v.tolist(), torch.tensor(v), v])
            opts[key] = v
    if ch.chance(0.3):
        a["separable"] = opts["CMA_diagonal"] = True
    more = {"verbose": -9, "randn": np.random.RandomState(seed).randn, "seed": np.nan}
    if ch.chance(0.2):
        a_ratio = ch.pick([0.3, 0.6])
        more["CMA_mirrors"] = opts["CMA_mirrors"] = a_ratio
    box = ch.draw(4)
    x0 = [0.5 * (i + 1) * (-1) ** i + 0.25 * ch.draw(5) for i in range(n)]
    if box:
        lb = [-3.0 - 0.5 * i for i in range(n)] if box != 3 else [-math.inf] * n
        ub = [3.0 + 0.5 * i for i in range(n)] if box != 2 else [math.inf] * n
        opts["bounds"] = [np.array(lb), np.array(ub)]
        bounds = dict(bounds=(lb, ub))
    else:
        bounds = {}
    na = ch.pick([0, 0, 2, 3])
    if conf["senses"] == ["min", "max"]:
        a["obj_index"] = ch.draw(2)
    else:
        conf["senses"] = ch.pick([["min"], ["max"]])
    made = make_made(conf, num_actors=na, **bounds, **(splitting(sim, ch, na) if na else {}))
    p = made.problem
    if ch.chance(0.2):
        start = p.generate_batch(2)[1]
        start.set_values(torch.tensor(x0, dtype=dtype))
        x0 = start.values.tolist()
    else:
        start = ch.pick([x0, np.array(x0), torch.tensor(x0, dtype=dtype)])
        if isinstance(start, torch.Tensor):
            x0 = start.tolist()
    if conf["popsize"] is not None:
        a["popsize"] = conf["popsize"]
    alg = PyCMAES(p, center_init=start, cma_options=more, **a)
    ref = cma.CMAEvolutionStrategy(
        x0, a["stdev_init"], dict(opts, randn=np.random.RandomState(seed).randn, seed=np.nan, maxiter=np.inf)
    )
    j = a.get("obj_index", 0)
    sign = -1.0 if conf["senses"][j] == "max" else 1.0
    sim.log(na, sorted(opts), sorted(a), box)
    if box:
        sim.probe(f"pycma-box-{box}")
    cl.arm(2, stall=0.1)
    for i in range(ch.rng_int(1, 8)):
        if sim.faults_on:
            disturb(sim)
        alg.step()
        asked = np.asarray(ref.ask())
        tol = (1e-8 if dtype == torch.float64 else 1e-4) * (1 + i)  # (limits and bounds may have 32 bits)
        pop = alg.population
        got, want = plain(pop.values), torch.as_tensor(asked, dtype=dtype)
        sim.check(
            got.shape == want.shape and torch.allclose(got, want, rtol=tol, atol=tol),
            "pycma-population",
            lambda: f"step {i + 1}: the population is {got.tolist()}, pycma asks for {want.tolist()}",
        )
        e = plain(pop.evals)[:, j].to(torch.float64).numpy()
        sim.check(
            bool((plain(pop.evals)[:, : len(conf["senses"])] == made.expected_evals(pop.values)[:, : len(conf["senses"])]).all()),
            "pycma-fitness",
            lambda: f"step {i + 1}: wrong fitnesses",
        )
        ref.tell(list(asked), sign * e)
        center = torch.as_tensor(np.asarray(ref.result[5]), dtype=dtype)
        sim.check(
            torch.allclose(plain(alg.status["center"]), center, rtol=tol, atol=tol),
            "pycma-center",
            lambda: f"step {i + 1}: the center is {plain(alg.status['center']).tolist()}, that of pycma is {center.tolist()}",
        )
        sim.probe("pycma-updates")


# ------------------------------------------------------------------------------------ C25


def mortal(cls):
    """The given search, terminating after a planned number of steps."""

    class Mortal(cls):
        born = []
        plan = []

        def __init__(self, problem, **kw):
            super().__init__(problem, **kw)
            self.life = type(self).plan[min(len(type(self).born), len(type(self).plan) - 1)]
            self.order = len(type(self).born)
            self.given = dict(kw)
            type(self).born.append(self)

        @property
        def is_terminated(self):
            return self.life is not None and self.step_count >= self.life

    Mortal.__name__ = "Mortal" + cls.__name__
    return Mortal


class Shrinking(ModifyingRestart):
    """A user-defined restarter: the radius grows at every restart."""

    def _modify_algorithm_args(self):
        if self.num_restarts >= 1:
            self._algorithm_args = {**self._algorithm_args, "stdev_init": 2.0 * self._algorithm_args["stdev_init"]}


def c25_restart(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    kind = ch.pick(["SNES", "CEM", "PGPE", "CMAES", "XNES", "GA"])
    variant = ch.pick(["restart", "ipop", "modify"]) if kind != "GA" else ch.pick(["restart", "ipop"])
    conf = draw_conf(sim, (kind,))
    conf["bounds"] = None if kind != "GA" else conf["bounds"]
    na = ch.pick([0, 0, 2])
    made = make_made(conf, num_actors=na)
    p = made.problem
    cls = mortal({"SNES": SNES, "CEM": CEM, "PGPE": PGPE, "CMAES": CMAES, "XNES": XNES, "GA": GeneticAlgorithm}[kind])
    cls.born, cls.plan = [], [ch.pick([None, 1, 2, 3]) for _ in range(ch.rng_int(1, 4))]
    args = dict(conf["args"])
    for n in ("center_init", "stdev_max_change"):
        if isinstance(args.get(n), list):
            args[n] = torch.tensor(args[n], dtype=conf["dtype"])
    args["popsize"] = conf["popsize"]
    if kind == "GA":
        args["operators"] = algs.operators(conf, p)
    if variant == "modify":
        args.pop("radius_init", None)
        args["stdev_init"] = 1.0
    mult = ch.pick([2, 1.5, 1, 3])
    if kind == "PGPE" and mult == 1.5:
        mult = 2
    thr = ch.pick([0.0, 1e9, 1.0, 5.0])
    given = dict(args)
    if variant == "ipop":
        alg = IPOP(p, cls, args, min_fitness_stdev=thr, popsize_multiplier=mult)
    elif variant == "modify":
        alg = Shrinking(p, cls, args)
    else:
        alg = Restart(p, cls, args)
    logger = PandasLogger(alg) if ch.chance(0.4) else None
    sim.log(kind, variant, cls.plan, mult, thr, na, logger is not None)
    sim.check(alg.num_restarts == 1 and len(cls.born) == 1, "first-start", lambda: f"{alg.num_restarts} starts at the beginning")
    cl.arm(2, stall=0.1)
    starts = 1
    size = conf["popsize"]
    stdev = 1.0
    for i in range(ch.rng_int(1, 8)):
        if size > 60:
            break
        inner = alg.search_algorithm
        sim.check(inner is cls.born[-1], "inner", "the inner search is not the last one created")
        before = inner.step_count
        mark = len(sim.ledger)
        if sim.faults_on:
            disturb(sim)
        alg.step()
        sim.check(inner.step_count == before + 1, "inner-steps", lambda: f"the inner search made {inner.step_count - before} steps")
        ended = inner.is_terminated
        if variant == "ipop":
            e = plain(inner.population.evals).to(F)
            sd = float(e.std())
            if abs(sd - thr) <= 1e-4 * max(1.0, thr):
                break
            ended = ended or sd < thr
        if ended:
            starts += 1
            sim.probe("restarted-" + variant)
            if variant == "ipop":
                size = int(mult * len(inner.population))
            stdev *= 2.0
        sim.check(alg.num_restarts == starts, "restart-count", lambda: f"{alg.num_restarts} starts, expected {starts}")
        sim.check(len(cls.born) == starts, "restart-count", lambda: f"{len(cls.born)} inner searches were created, expected {starts}")
        new = alg.search_algorithm
        sim.check((new is not inner) == ended, "restart-moment", lambda: f"the inner search {'is kept' if ended else 'was replaced'} though it has {'' if ended else 'not '}terminated")
        if ended:
            sim.check(new.step_count == 0, "fresh-search", "a restarted search begins with steps already made")
            sim.check(int(new.given["popsize"]) == size, "popsize", lambda: f"restarted with popsize {new.given['popsize']}, expected {size}")
            if variant == "modify":
                sim.check(float(new.given["stdev_init"]) == stdev, "modified-args", lambda: f"stdev_init {new.given['stdev_init']}, expected {stdev}")
            for k, v in given.items():
                if k in ("popsize", "operators") or (variant == "modify" and k == "stdev_init"):
                    continue
                same_arg = freeze(new.given[k]) == freeze(v)
                sim.check(same_arg, "args", lambda: f"restarted with {k}={new.given[k]}, configured {v}")
            sim.check(set(new.given) == set(given), "args", lambda: f"restarted with the arguments {set(new.given)}")
            sim.check(new.problem is p, "restarted-problem", "the restarted search has another problem")
        sim.check(args.keys() == given.keys() and all(args[k] is given[k] for k in given), "user-args-changed", "the arguments given by the user were changed")
        # everything in the status can be read
        st = alg.status
        items = {k: st[k] for k in st}
        sim.check(items["iter"] == i + 1, "iter", lambda: f"iter is {items['iter']} after {i + 1} steps")
        sim.check(items["num_restarts"] == starts, "status-restarts", "num_restarts in the status is wrong")
        n_evals = work.evaluations_since(sim, 0)
        vals = [float(made.expected_row(r[2])[0]) for r in n_evals]
        best = min(vals) if conf["senses"][0] == "min" else max(vals)
        if conf["stats"] is not False:
            sim.check(float(items["best_eval"]) == best, "best-lost", lambda: f"best_eval is {items['best_eval']}, the best of all evaluations was {best}")
            sim.check(float(plain(p.status["best"].evals)[0]) == best, "best-lost", "the problem's best record was lost")
        pops = work.evaluations_since(sim, mark)
        sim.check(len(pops) > 0, "no-evaluation", "a step without evaluations")
    if logger is not None:
        df = logger.to_dataframe()
        sim.check(len(df) == alg.step_count, "logged", lambda: f"{len(df)} rows were logged for {alg.step_count} steps")


def c24_optimizers(sim):
    """The optimizers on their own: two of them at work, each with a history of its own."""
    ch = sim.ch
    ours = []
    for _ in range(ch.rng_int(1, 2)):
        kind, conf = ch.pick(
            [
                ("clipup", {}),
                ("clipup", {"max_speed": 0.125, "momentum": 0.5}),
                ("clipsga", {"momentum": 0.0}),
                ("adam", {}),
                ("adam", {"beta1": 0.5, "beta2": 0.75}),
                ("adam", {"epsilon": 0.125, "amsgrad": True}),
                ("sgd", {}),
                ("sga", {"momentum": 0.5}),
                ("sgd", {"momentum": 0.5, "dampening": 0.25}),
                ("sgd", {"momentum": 0.75, "nesterov": True}),
            ]
        )
        L = ch.rng_int(1, 4)
        dtype = ch.pick([torch.float64, torch.float32])
        step = ch.pick([0.25, 0.0625])
        given = dict(conf)
        args = dict(solution_length=L, dtype=dtype)
        # a configuration may be overridden by what is said at the end
        if ch.chance(0.5):
            make = get_optimizer_class(kind, dict(given, stepsize=ch.pick([step, 9.0])))
            real = make(**args, stepsize=step)
        else:
            real = get_optimizer_class(kind)(**args, **given, stepsize=step)
        if kind.startswith("clip"):
            conf = dict({"max_speed": 2 * step, "momentum": 0.9}, **conf)
        ours.append({"real": real, "ref": refdist.Follower(step, kind, conf), "L": L, "dtype": dtype, "conf": conf})
        sim.log("optimizer", kind, conf, L, str(dtype))
    saved, kept = [], []
    for _ in range(ch.rng_int(2, 16)):
        i = ch.draw(len(ours))
        o = ours[i]
        real, ref = o["real"], o["ref"]
        clip = ref.kind.startswith("clip")
        what = ch.weighted([8, 2, 1, 1, 1])
        sim.sched(i, what)
        if what == 0:
            scalar = ch.chance(0.15)
            g = [ch.rng_int(-6, 6) / 4 for _ in range(1 if scalar else o["L"])]
            if clip and not any(g):
                g[0] = 1.0
            t = torch.tensor(g * o["L"] if scalar else g, dtype=F)
            form = ch.draw(3)
            arg = g[0] if scalar else list(g) if form == 0 else torch.tensor(g, dtype=o["dtype"] if form == 1 else F)
            before = copy.deepcopy(arg)
            if sim.faults_on and ch.chance(0.1):
                sim.fault("refused_input")
                try:
                    real.ascent(torch.ones(o["L"] + 1, dtype=o["dtype"]))
                    sim.check(False, "accepted", "a gradient of a wrong length was accepted")
                except ValueError as e:
                    sim.log("refused", type(e).__name__)
            clone = ch.chance(0.8)
            y = real.ascent(arg) if clone else real.ascent(arg, cloned_result=False)
            want = ref(t)
            sim.check(y.dtype == o["dtype"] and y.shape == (o["L"],), "form", lambda: f"{y.dtype} {tuple(y.shape)}")
            near = torch.allclose(y.double(), want, rtol=TOL[o["dtype"]] / 10, atol=1e-6 if o["dtype"] == torch.float32 else 1e-9)
            sim.check(near, "step", lambda: f"{ref.kind} {ref.conf}: the step is {y.tolist()} instead of {want.tolist()}")
            sim.check(torch.equal(torch.as_tensor(arg), torch.as_tensor(before)), "gradient-changed", lambda: f"the gradient {before} became {arg}")
            if clone and ch.chance(0.5):
                y += 100.0  # (it belongs to the caller)
                sim.probe("step-reused")
            elif clone:
                kept.append((y, y.clone()))
            if isinstance(arg, torch.Tensor) and ch.chance(0.3):
                arg.fill_(50.0)
        elif what == 1:
            group = real.contained_optimizer.param_groups[0]
            name = ch.pick(["lr", "lr", "momentum", "max_speed"] if clip else ["lr"])
            v = ch.pick([0.5, 0.03125, 0.125])
            group[name] = v
            if name == "lr":
                ref.lr = v
            else:
                ref.conf[name] = v
            sim.check(group[name] == v, "setting", lambda: f"{name} is {group[name]} after it was set to {v}")
            sim.probe("setting-changed")
        elif what == 2:
            saved.append((i, copy.deepcopy(real) if ch.chance(0.5) else pickle.dumps(real), copy.deepcopy(ref)))
        elif what == 3 and saved:
            sim.fault("back_to_checkpoint")
            i, was, r = saved[ch.draw(len(saved))]
            ours[i]["real"] = pickle.loads(was) if isinstance(was, bytes) else copy.deepcopy(was)
            ours[i]["ref"] = copy.deepcopy(r)
        elif what == 4 and clip and sim.faults_on:
            sim.fault("refused_input")
            group = real.contained_optimizer.param_groups[0]
            name, v = ch.pick([("lr", -0.5), ("momentum", -0.25), ("momentum", 1.5), ("max_speed", -1.0)])
            try:
                group[name] = v
                sim.check(False, "accepted", lambda: f"{name} was set to {v}")
            except ValueError as e:
                sim.log("refused", type(e).__name__)
        for y, was in kept:
            sim.check(torch.equal(y, was), "step-changed-later", lambda: f"the step {was.tolist()} became {y.tolist()}")
