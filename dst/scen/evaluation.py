"""Parallel evaluation: C01 C02 C03 C04 C05 C16 C20 C30 C32 (base problem classes)."""

import math
import random
import types

import numpy as np
import torch

from evotorch import Problem, Solution, SolutionBatch
from evotorch.algorithms import SNES
from evotorch.decorators import on_aux_device, on_device, rowwise

from .. import work
from ..kernel import InjectedError, Violation
from ..simray import cluster
from ..work import (
    arm_user_failures,
    check_evals,
    check_once,
    disarm_user_failures,
    evaluations_since,
    keys_of,
    make_problem,
    note_eval,
    plain,
    row_key,
    same,
    splitting,
    user_failures,
)

OUTAGES = (Exception, KeyboardInterrupt)


def draw_cluster(sim):
    c = cluster()
    c.eager = (0, 0, 2, 6)[sim.ch.draw(4)]
    return c


def targets(sim, made, ch):
    """Yield things to evaluate: (description, object, batch that holds the rows, row indices)."""
    p = made.problem
    n = ch.rng_int(1, 14)
    batch = p.generate_batch(n)
    k = ch.draw(7)
    if k == 1 and n >= 2:
        a = ch.draw(n - 1)
        b = ch.rng_int(a + 1, n)
        return "slice", batch[a:b], batch, list(range(a, b))
    if k == 2 and made.kind != "object":
        st = ch.rng_int(2, 3)
        return "strided", batch[::st], batch, list(range(0, n, st))
    if k == 3:
        i = ch.draw(n)
        return "solution", batch[i], batch, [i]
    if k == 4:
        idx = [ch.draw(n) for _ in range(ch.rng_int(1, n))]
        b2 = batch[idx]
        return "picked", b2, b2, list(range(len(idx)))
    if k == 5:
        b2 = SolutionBatch.cat([batch, p.generate_batch(ch.rng_int(1, 4))])
        return "concatenated", b2, b2, list(range(len(b2)))
    if k == 6:
        b2 = batch.clone()
        return "clone", b2, b2, list(range(n))
    return "whole", batch, batch, list(range(n))


def c01_placement(sim):
    """C01: completion orders, delays, stalls and slow workers; everything ends at its place."""
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([2, 3, 4, 6, 0])
    made = make_problem(sim, num_actors=na, seed=(ch.draw(1000) if ch.chance(0.4) else None), **splitting(sim, ch, na))
    p = made.problem
    cl.arm(3, stall=0.1)
    last = None
    for _ in range(ch.rng_int(1, 3)):
        if last is not None and ch.chance(0.35):
            what, obj, holder, rows = last  # evaluate the same thing again
            if made.kind != "object" and isinstance(obj, SolutionBatch) and ch.chance(0.6):
                v = plain(obj.values)
                v = v + (1 if not v.dtype.is_floating_point else 0.75)
                obj.set_values(v)
        else:
            what, obj, holder, rows = targets(sim, made, ch)
        last = (what, obj, holder, rows)
        sim.log("evaluate", what, len(rows))
        before_keys = keys_of(holder)
        before_evals = plain(holder.evals)
        mark = len(sim.ledger)
        p.evaluate(obj)
        sim.probe("evaluated-" + what)
        sim.check(keys_of(holder) == before_keys, "values-changed", "evaluating changed or reordered decision values")
        shown = obj.to_batch() if isinstance(obj, Solution) else obj
        sim.check(keys_of(shown) == [before_keys[i] for i in rows], "values-changed", "the evaluated view changed")
        check_evals(sim, made, shown, "wrong-result")
        after = plain(holder.evals)
        for i in range(len(holder)):
            if i in rows:
                exp = made.expected_row(before_keys[i])
                sim.check(
                    same(after[i], exp), "wrong-result", lambda: f"row {i} of the holding batch shows {after[i].tolist()}"
                )
            else:
                sim.check(same(after[i], before_evals[i]), "foreign-row-touched", lambda: f"row {i} was not to be evaluated")
        check_once(sim, [before_keys[i] for i in rows], mark, "not-exactly-once")
        procs = set(r[1] for r in evaluations_since(sim, mark))
        if na >= 2:
            sim.check("main" not in procs, "evaluated-in-main", "a parallelized problem evaluated in the main process")
            if len(procs) > 1:
                sim.probe("several-workers")
        else:
            sim.check(procs <= {"main"}, "evaluated-remotely", "an unparallelized problem used workers")


class RowFitness:
    """A fitness defined for a single solution, by tensor operations only."""

    def __init__(self, weights, nobj, ndata, noisy):
        self.weights, self.nobj, self.ndata, self.noisy = weights, nobj, ndata, noisy
        self.__name__ = "row_fitness"

    def exact(self, x):
        w = torch.tensor(self.weights, dtype=x.dtype)
        return torch.stack([(x * w).sum() + (x[:1] * k).sum() for k in range(self.nobj + self.ndata)])

    def __call__(self, x):
        from .. import kernel

        sim = kernel.current()
        work.record(sim, "rows", x.ndim)
        if sim.state.get("row-failures", 0) > 0:
            sim.state["row-failures"] -= 1
            sim.fault("user_error", "rows")
            raise InjectedError("rows")
        y = self.exact(x)
        if self.noisy:
            y = torch.cat([y, torch.rand(1, dtype=x.dtype)])
        return y[0] if len(y) == 1 else y


def c01_rowwise(sim):
    """Fitness functions for single solutions which are applied to all rows at once."""
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 2, 3])
    cut = splitting(sim, ch, na)
    L, nobj, ndata = ch.rng_int(1, 4), ch.pick([1, 1, 2]), ch.pick([0, 0, 1])
    mode = ch.pick(["error", "error", "different", "same"])
    noisy = mode != "error" or ch.chance(0.15)
    dtype = ch.pick([torch.float32, torch.float64])
    fit = RowFitness([ch.rng_int(-4, 4) for _ in range(L)], nobj, ndata, noisy)
    if mode == "error" and ch.chance(0.5):
        f = rowwise(fit)
    else:
        f = rowwise(randomness=mode)(fit)
    where = ch.pick(["", "", "device", "aux"])
    if where == "device":
        f = on_device("cpu")(f)
    elif where == "aux":
        f = on_aux_device(f)
    width = nobj + ndata + noisy
    p = Problem(
        "min" if nobj == 1 else ["min", "max"], f, solution_length=L, initial_bounds=(-4, 4), dtype=dtype, eval_data_length=width - nobj, num_actors=na, **cut
    )
    sim.log(na, cut, L, nobj, ndata, mode, noisy, where)
    cl.arm(3, stall=0.1)
    for _ in range(ch.rng_int(1, 3)):
        n = ch.rng_int(1, 8)
        b = p.generate_batch(n)
        b.set_values(torch.tensor([[ch.rng_int(-16, 16) / 4 for _ in range(L)] for _ in range(n)], dtype=dtype))
        x = plain(b.values).clone()
        mark = len(sim.ledger)
        if sim.faults_on and ch.chance(0.25):
            sim.state["row-failures"] = 1
        failed = None
        try:
            p.evaluate(b)
        except InjectedError as e:
            failed = e
        except RuntimeError as e:
            if not (noisy and mode == "error"):
                raise
            failed = e
        had = sim.state.get("row-failures", 0)
        sim.state["row-failures"] = 0
        calls = [r for r in sim.ledger[mark:] if r[0] == "rows"]
        got = plain(b.evals)
        if noisy and mode == "error":
            sim.check(failed is not None, "randomness-accepted", "a fitness drew random numbers although this was declared an error")
            sim.check(bool(torch.isnan(got).all()), "failed-rows", "a failed evaluation has left results")
            sim.probe("rowwise-random-refused")
        if failed is not None:
            for i in range(n):
                ok = bool(torch.isnan(got[i]).all()) or same(got[i, : nobj + ndata], fit.exact(x[i]))
                sim.check(ok, "failed-rows", lambda: f"row {i} shows {got[i].tolist()} after a failure")
            p.kill_actors()
            sim.probe("rowwise-failed")
            continue
        sim.check(had == 0 or not calls, "failure-hidden", "a failure was hidden")
        for i in range(n):
            want = fit.exact(x[i])
            sim.check(same(got[i, : nobj + ndata], want), "rowwise-result", lambda: f"row {i}: {got[i].tolist()} instead of {want.tolist()}")
        sim.check(all(r[2] == 1 for r in calls), "rowwise-rows", "the fitness was given more than one solution at once")
        sim.check(1 <= len(calls) <= n + 8, "rowwise-calls", lambda: f"{len(calls)} calls for {n} solutions")
        if not na:
            sim.check(len(calls) == 1 or cut, "rowwise-calls", lambda: f"{len(calls)} calls for one batch")
        if noisy:
            noise = got[:, -1].tolist()
            if mode == "different":
                sim.check(dtype == torch.float32 or len(set(noise)) == n, "rowwise-noise", lambda: f"solutions share their noise: {noise}")
                sim.check(n < 4 or len(set(noise)) > n // 2, "rowwise-noise", lambda: f"solutions share their noise: {noise}")
            else:
                sim.check(len(set(noise)) <= len(calls), "rowwise-noise", lambda: f"{len(calls)} calls, but the noise is {noise}")
            sim.probe("rowwise-" + mode)
        # the function itself takes any number of leading dimensions
        lead = ch.pick([(), (2,), (2, 1, 3)])
        t = torch.tensor([ch.rng_int(-16, 16) / 4 for _ in range(math.prod(lead) * L)], dtype=dtype).reshape(lead + (L,))
        y = f(t)
        scalar = width == 1
        sim.check(y.shape == lead + (() if scalar else (width,)), "rowwise-shape", lambda: f"{tuple(y.shape)} for {tuple(t.shape)}")
        flat, rows = y.reshape(-1, width), t.reshape(-1, L)
        ok = all(same(flat[i, : nobj + ndata], fit.exact(rows[i])) for i in range(len(rows)))
        sim.check(ok, "rowwise-result", lambda: f"{flat.tolist()} for {rows.tolist()}")


class PieceProblem(Problem):
    """Records the size of every piece of work it is handed."""

    def __init__(self, fit, per_solution=False, **kw):
        super().__init__("min", solution_length=2, initial_bounds=(-3, 3), dtype=torch.float64, **kw)
        self.fit = fit

    def _evaluate_batch(self, batch):
        from .. import kernel

        sim = kernel.current()
        work.record(sim, "piece", len(batch))
        rows = []
        for x in batch.values:
            k = row_key(x)
            note_eval(k)
            rows.append(self.fit.expected(k))
        batch.set_evals(torch.tensor(rows, dtype=torch.float64).reshape(len(batch), 1))


def near_equal(n, k):
    return sorted([n // k + (1 if i < n % k else 0) for i in range(k)])


def c02_splitting(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    cl.arm(3, stall=0.15)
    fit = work.Fit(1, 0, ch.draw(3))
    kw = {}
    mode = ch.draw(6)
    cpu = ch.rng_int(1, 6)
    gpu = ch.pick([None, 1.0, 2.0, 3.0, 0.0])
    cl.resources = {"CPU": float(cpu), "memory": 1e9}
    if gpu is not None:
        cl.resources["GPU"] = gpu
    gpus_per_actor = None
    if mode <= 1:
        na = ch.rng_int(0, 6)
        kw["num_actors"] = na if not (na == 0 and ch.chance(0.5)) else None
        want = na
    elif mode == 2:
        kw["num_actors"] = ch.pick(["max", "num_cpus"])
        want = cpu
    elif mode == 3:
        kw["num_actors"] = "num_devices"
        if gpu is None or gpu == 0.0:
            want = cpu
        else:
            want = math.ceil(min(cpu, gpu))
            gpus_per_actor = 1
    elif mode == 4:
        kw["num_actors"] = "num_gpus"
        if gpu is None or gpu == 0.0:
            try:
                PieceProblem(fit, **kw)
            except ValueError:
                sim.probe("no-gpu-refused")
                sim.check(True, "ok")
                return
            raise Violation("gpu-keyword-accepted", "num_actors='num_gpus' was accepted without any GPU")
        want = math.ceil(gpu)
        gpus_per_actor = 1
    else:
        na = ch.rng_int(2, 5)
        kw["num_actors"] = na
        want = na
        if gpu and ch.chance(0.5):
            kw["num_gpus_per_actor"] = ch.pick([0.25, 1, "max"])
            gpus_per_actor = gpu / na if kw["num_gpus_per_actor"] == "max" else kw["num_gpus_per_actor"]
        elif ch.chance(0.5):
            kw["actor_config"] = {"num_cpus": 2}
    if want == 1:
        want = 0
    cut = splitting(sim, ch, want)
    p = PieceProblem(fit, **kw, **cut)
    sim.log("actors", want, sorted(cut.items()))
    created = 0
    for rnd in range(ch.rng_int(1, 4)):
        n = ch.rng_int(1, 18)
        batch = p.generate_batch(n)
        mark = len(sim.ledger)
        p.evaluate(batch)
        pieces = [r for r in sim.ledger[mark:] if r[0] == "piece" and r[2] > 0]
        sizes = sorted(r[2] for r in pieces)
        sim.check(p.num_actors == want, "num-actors", lambda: f"num_actors is {p.num_actors}, {want} were requested")
        sim.check(
            len(cl.actors) == want,
            "workers-created",
            lambda: f"{len(cl.actors)} workers were created so far, {want} are wanted (evaluation {rnd})",
        )
        sim.check(
            (len(p.actors) if p.actors is not None else 0) == want, "workers-listed", lambda: f"actors lists {p.actors}"
        )
        sim.check(sum(sizes) == n, "work-lost", lambda: f"pieces {sizes} for {n} solutions")
        check_once(sim, keys_of(batch), mark, "not-exactly-once")
        if want == 0:
            sim.check(set(r[1] for r in pieces) <= {"main"} and sizes == [n], "left-main", lambda: f"pieces {pieces}")
        else:
            sim.check(all(r[1] != "main" for r in pieces), "in-main", "work was done in the main process")
            if "num_subbatches" in cut:
                exp = [s for s in near_equal(n, cut["num_subbatches"]) if s]
                sim.check(sizes == exp, "num-subbatches", lambda: f"{n} solutions were cut into {sizes}, not {exp}")
            elif "subbatch_size" in cut:
                m = cut["subbatch_size"]
                sim.check(max(sizes) <= m, "subbatch-size", lambda: f"a piece of {max(sizes)} exceeds {m}")
                sim.check(len(sizes) == math.ceil(n / m), "subbatch-count", lambda: f"{n} by {m} gives pieces {sizes}")
            else:
                exp = [s for s in near_equal(n, want) if s]
                sim.check(sizes == exp, "per-worker-pieces", lambda: f"{n} solutions were cut into {sizes}, not {exp}")
                # one piece per worker, nobody gets two
                who = [r[1] for r in pieces]
                if len(cl.actors) == want and len(set(who)) < len(who):
                    sim.probe("worker-took-two-pieces")
    if want and gpus_per_actor is not None:
        for a in cl.actors:
            g = a.options.get("num_gpus")
            sim.check(g is not None and abs(g - gpus_per_actor) < 1e-9, "gpu-share", lambda: f"num_gpus={g}, not {gpus_per_actor}")
    if want and "actor_config" in kw:
        for a in cl.actors:
            sim.check(a.options.get("num_cpus") == 2, "actor-config", lambda: f"options {a.options}")


HARD = ("crash_before", "crash_after", "lost_result", "interrupt")


def arm_cluster_failures(sim, cl, budget):
    ch = sim.ch
    kinds = {
        "crash_before": 0.1,
        "crash_after": 0.1,
        "lost_result": 0.1,
        "interrupt": 0.06,
        "create_fail": 0.05,
        "stall": 0.05,
    }
    chosen = {}
    for k, r in kinds.items():
        if ch.chance(0.4):
            chosen[k] = r
    cl.arm(budget, **chosen)


def hard_faults(sim, cl):
    return sum(1 for k, _ in cl.faulted if k in HARD) + user_failures(sim)


def c03_failures(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.rng_int(2, 5)
    made = make_problem(sim, num_actors=na, **splitting(sim, ch, na))
    p = made.problem
    seen_best = []
    dirty = False  # some fault may still make itself felt
    only_interrupts = True
    pool = []
    for attempt in range(ch.rng_int(2, 6)):
        faulty = ch.chance(0.6)
        if faulty:
            arm_cluster_failures(sim, cl, ch.rng_int(1, 3))
            if ch.chance(0.4):
                arm_user_failures(sim, 1, 0.15)
        else:
            cl.disarm()
            disarm_user_failures(sim)
            if dirty and ch.chance(0.6):
                sim.log("kill workers")
                p.kill_actors()
                dirty = False
                only_interrupts = True
        if pool and ch.chance(0.4):
            batch = ch.pick(pool)
            if made.kind != "object" and ch.chance(0.5):
                v = plain(batch.values)
                batch.set_values(v + (1 if not v.dtype.is_floating_point else 0.5))
        else:
            batch = p.generate_batch(ch.rng_int(1, 12))
            pool.append(batch)
        ks = keys_of(batch)
        mark = len(sim.ledger)
        h0 = hard_faults(sim, cl)
        f0, u0 = len(cl.faulted), user_failures(sim)
        sim.log("evaluate", len(ks), "dirty" if dirty else "clean")
        try:
            p.evaluate(batch)
            ok = True
        except OUTAGES as e:
            ok = False
            err = e
        uf = user_failures(sim)
        newly = hard_faults(sim, cl) - h0
        sim.check(keys_of(batch) == ks, "values-changed", "a (failed) evaluation changed decision values")
        if len(cl.faulted) > f0 or newly:
            dirty = True
        kinds = set(k for k, _ in cl.faulted[f0:])
        if (kinds - {"interrupt", "stall"}) or user_failures(sim) > u0:
            only_interrupts = False
        if ok:
            sim.probe("succeeded-after-trouble" if dirty else "succeeded")
            sim.check(
                newly == 0,
                "failure-swallowed",
                lambda: f"evaluate() returned normally although {cl.faulted[f0:]} and {uf} fitness errors happened",
            )
            check_evals(sim, made, batch, "wrong-after-failure")
        else:
            sim.probe("raised-" + type(err).__name__.split("(")[0])
            sim.check(dirty, "spurious-failure", lambda: f"{type(err).__name__}: {err} although nothing failed")
            n_nan = check_evals(sim, made, batch, "contaminated", allow_nan_rows=True)
            if 0 < n_nan < len(ks):
                sim.probe("partially-evaluated-after-failure")
        for b in pool:
            check_evals(sim, made, b, "contaminated", allow_nan_rows=True)
    # in the end the faults are over and the workers are replaced: everything has to work again
    cl.disarm()
    disarm_user_failures(sim)
    if not (only_interrupts and dirty and ch.chance(0.7)):
        p.kill_actors()
    else:
        sim.probe("retried-after-interrupt-only")
    n_before = len(cl.actors)
    for batch in pool[-2:]:
        mark = len(sim.ledger)
        p.evaluate(batch)
        check_evals(sim, made, batch, "wrong-after-recovery")
    cl.drain()
    for b in pool:
        check_evals(sim, made, b, "contaminated-late", allow_nan_rows=True)


# ------------------------------------------------------------------------------------- C04


class HookFn:
    """A hook function which records its calls (and may fail)."""

    def __init__(self, tag, returns=None, every=1):
        self.tag, self.returns, self.every = tag, returns, every

    def __call__(self, *args, **kwargs):
        from .. import kernel

        sim = kernel.current()
        info = None
        if args and isinstance(args[0], SolutionBatch):
            info = ("batch", tuple(keys_of(args[0])), bool(torch.isnan(args[0].evals).any()))
        elif args and isinstance(args[0], Problem):
            info = ("problem", args[0].actor_index, args[0].is_remote)
        elif args and isinstance(args[0], (list, dict)):
            info = ("grads", len(args[0]) if isinstance(args[0], list) else "dict")
        work.record(sim, "hook", self.tag, info)
        return self.answer(sim)

    def answer(self, sim):
        """What the latest call has returned: some hooks have something to tell only now and then."""
        n = sum(1 for r in sim.ledger if r[0] == "hook" and r[2] == self.tag)
        if self.returns is None or n % self.every != 0:
            return None
        return {k: (v, n) for k, v in self.returns.items()}


class Answering(Problem):
    """A problem with methods to be called on all workers."""

    def __init__(self, fit, **kw):
        super().__init__("min", solution_length=3, initial_bounds=(-2, 2), dtype=torch.float64, **kw)
        self.fit = fit
        self.state = 0
        self.inner = types.SimpleNamespace(part=0, deep=types.SimpleNamespace(part=0))

    def _evaluate_batch(self, batch):
        rows = []
        for x in batch.values:
            k = row_key(x)
            note_eval(k)
            rows.append(self.fit.expected(k))
        batch.set_evals(torch.tensor(rows, dtype=torch.float64).reshape(len(batch), 1))

    def who(self, a, b=0, *, c=0):
        from .. import kernel

        self.state += a
        work.record(kernel.current(), "who", self.actor_index)
        return (self.actor_index, self.state, a, b, c)

    def get_env(self):
        return self

    def double_index(self, x):
        return self.actor_index * 2 + x


def fields_of_workers(sim, p, na):
    """Fields of the workers' problems are read and written, many requests being under way at once."""
    import ray

    ch = sim.ch
    names = ["note", "inner.part", "inner.deep.part"]
    have = [dict.fromkeys(names, 0) for _ in range(na)]
    refs = []
    for i in range(na):
        for f in names:
            refs.append((i, f, p.actors[i].set.remote(f, 0), None))
    for _ in range(ch.rng_int(1, 8)):
        i, f = ch.draw(na), ch.pick(names)
        how = f.split(".") if ch.chance(0.4) else f
        if isinstance(how, list) and ch.chance(0.5):
            how = tuple(how)
        if ch.chance(0.5):
            v = ch.rng_int(1, 99)
            refs.append((i, f, p.actors[i].set.remote(how, v), None))
            have[i][f] = v
        else:
            refs.append((i, f, p.actors[i].get.remote(how), have[i][f]))
    for i in range(na):
        for f in names:
            refs.append((i, f, p.actors[i].get.remote(f), have[i][f]))
    if ch.chance(0.5):
        ch.shuffle(refs)
    for i, f, ref, want in refs:
        got = ray.get(ref)
        sim.check(got == want, "worker-field", lambda: f"field {f} of worker {i}: {got!r} instead of {want!r}")
    sim.check(
        p.inner.part == 0 and p.inner.deep.part == 0 and not hasattr(p, "note"),
        "worker-field-leaked",
        "writing a field of a worker has changed the problem of the main process",
    )
    sim.probe("worker-fields")


def c04_hooks(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 2, 3, 5])
    cut = {} if ch.chance(0.5) else splitting(sim, ch, na)
    cut.pop("subbatch_size", None)
    fit = work.Fit(1, 0, 1)
    p = Answering(fit, num_actors=na, **cut)
    cl.arm(4, stall=0.1)
    nb, nf = ch.rng_int(0, 3), ch.rng_int(1, 3)
    before = [HookFn(f"before{i}") for i in range(nb)]
    after = [HookFn(f"after{i}", ch.pick([None, {"x": i}, {f"y{i}": i}, {"x": i, "z": -i}]), ch.pick([1, 1, 2])) for i in range(nf)]
    gbefore = [HookFn(f"gbefore{i}") for i in range(ch.rng_int(0, 2))]
    gafter = [HookFn(f"gafter{i}", {f"g{i}": i}, ch.pick([1, 2])) for i in range(ch.rng_int(1, 2))]
    remote = [HookFn(f"remote{i}") for i in range(ch.rng_int(1, 2))]
    for hook, fns in (
        (p.before_eval_hook, before),
        (p.after_eval_hook, after),
        (p.before_grad_hook, gbefore),
        (p.after_grad_hook, gafter),
        (p.remote_hook, remote),
    ):
        for f in fns:
            hook.append(f)
    counts = {}
    state = 0

    def hooks_since(mark, main_only=True):
        return [(r[2], r[3]) for r in sim.ledger[mark:] if r[0] == "hook" and not r[2].startswith("remote")]

    started = 0
    for _ in range(ch.rng_int(1, 4)):
        act = ch.draw(4)
        mark = len(sim.ledger)
        if act <= 1:
            batch = p.generate_batch(ch.rng_int(1, 8))
            ks = tuple(keys_of(batch))
            failing = ch.chance(0.25)
            if failing:
                arm_user_failures(sim, 1, 0.5)
            sim.log("evaluate", len(ks))
            u0 = user_failures(sim)
            try:
                p.evaluate(batch)
                raised = False
            except InjectedError:
                raised = True
            disarm_user_failures(sim)
            calls = hooks_since(mark)
            exp_before = [(f.tag, ("batch", ks, True)) for f in before]
            exp_after = [(f.tag, ("batch", ks, False)) for f in after]
            if raised:
                sim.probe("hooks-of-failed-evaluation")
                sim.check(calls == exp_before, "hooks-failed-eval", lambda: f"hook calls {calls}")
                # a dirty pool of workers is replaced
                p.kill_actors()
                started = None
            else:
                sim.check(calls == exp_before + exp_after, "eval-hooks", lambda: f"hook calls {calls}")
                procs = set(r[1] for r in sim.ledger[mark:] if r[0] == "hook" and not r[2].startswith("remote"))
                sim.check(procs <= {"main"}, "hook-not-in-main", lambda: f"hooks ran in {procs}")
                order = [r for r in sim.ledger[mark:] if r[0] in ("hook", "eval")]
                order = [
                    ("b" if r[2].startswith("before") else "a") if r[0] == "hook" else "e"
                    for r in order
                    if not (r[0] == "hook" and r[2].startswith("remote"))
                ]
                squeezed = "".join(c for i, c in enumerate(order) if i == 0 or order[i - 1] != c)
                sim.check(
                    squeezed == ("b" if nb else "") + "e" + "a", "hook-order", lambda: f"order of hooks and work: {squeezed}"
                )
                exp_status = {}
                for f in after:
                    exp_status.update(f.answer(sim) or {})
                for k in set(exp_status) | {k for f in after if f.returns for k in f.returns}:
                    v = exp_status.get(k)
                    sim.check(p.status.get(k) == v, "hook-status", lambda: f"status {k}: {p.status.get(k)} instead of {v}")
                    if v is None:
                        sim.probe("hook-without-answer")
        elif act == 2:
            from evotorch.distributions import SeparableGaussian

            dist = SeparableGaussian({"mu": torch.zeros(3, dtype=torch.float64), "sigma": torch.ones(3, dtype=torch.float64)})
            popsize = ch.rng_int(2, 5) * max(1, na, cut.get("num_subbatches", 1))
            sim.log("gradients", popsize)
            res = p.sample_and_compute_gradients(dist, popsize, ranking_method=ch.pick([None, "centered"]))
            calls = [c for c in hooks_since(mark) if c[0].startswith("g")]
            shape = len(res) if isinstance(res, list) else "dict"
            sim.check(
                [c[0] for c in calls] == [f.tag for f in gbefore] + [f.tag for f in gafter],
                "grad-hooks",
                lambda: f"gradient hook calls {calls}",
            )
            sim.check(
                all(c[1] == ("grads", shape) for c in calls if c[0].startswith("gafter")), "grad-hook-args", lambda: f"{calls}"
            )
            procs = set(r[1] for r in sim.ledger[mark:] if r[0] == "hook" and r[2].startswith("g"))
            sim.check(procs <= {"main"}, "hook-not-in-main", lambda: f"gradient hooks ran in {procs}")
            for f in gafter:
                now = f.answer(sim) or {}
                for k in f.returns:
                    sim.check(p.status.get(k) == now.get(k), "grad-hook-status", lambda: f"status {k}={p.status.get(k)}")
            if na >= 2:
                sim.check(
                    not [c for c in hooks_since(mark) if c[0].startswith(("before", "after"))],
                    "eval-hooks-in-workers",
                    "evaluation hooks of the main problem ran for the workers' own populations",
                )
        elif na >= 2:
            a, b = ch.rng_int(1, 3), ch.draw(5)
            sim.log("broadcast", a, b)
            probs = p.all_remote_problems()
            res = probs.who(a, b=b, c=7)
            sim.check(len(res) == na, "broadcast-count", lambda: f"{len(res)} answers of {na} workers")
            sim.check(
                [r[0] for r in res] == list(range(na)) and all(r[2:] == (a, b, 7) for r in res),
                "broadcast-order",
                lambda: f"answers {res} are not in worker order",
            )
            res = p.all_remote_envs().double_index(5)
            sim.check(list(res) == [2 * i + 5 for i in range(na)], "env-broadcast-order", lambda: f"{res}")
            if ch.chance(0.5):
                fields_of_workers(sim, p, na)
            sim.probe("broadcast")
    # worker-start hooks: each once per worker
    if na >= 2 and cl.actors:
        cl.drain()
        for f in remote:
            got = [(r[1], r[3]) for r in sim.ledger if r[0] == "hook" and r[2] == f.tag]
            alive = [a for a in cl.actors if a.n_done > 0]
            sim.check(
                sorted(g[0] for g in got) == sorted(a.index for a in alive),
                "remote-hook",
                lambda: f"worker-start hook ran in {got}, workers are {[a.index for a in alive]}",
            )
            sim.check(
                all(g[1] == ("problem", g[0] % na, True) for g in got), "remote-hook-arg", lambda: f"worker-start hook saw {got}"
            )
    sim.check(
        not [r for r in sim.ledger if r[0] == "hook" and r[2].startswith("remote") and r[1] == "main"],
        "remote-hook-main",
        "the worker-start hook ran in the main process",
    )


# ------------------------------------------------------------------------------------- C05


class Drawing(Problem):
    """Draws random numbers from every generator while evaluating, and on demand."""

    def __init__(self, **kw):
        super().__init__("min", solution_length=2, initial_bounds=(-3, 3), dtype=torch.float64, **kw)

    def draw(self):
        n = 3
        return {
            "python": tuple(random.random() for _ in range(n)),
            "numpy": tuple(np.random.rand(n).tolist()),
            "torch": tuple(torch.rand(n, dtype=torch.float64).tolist()),
            "problem": tuple(self.make_uniform(n, lb=0.0, ub=1.0, dtype=torch.float64).tolist()),
            "index": self.actor_index,
        }

    def _evaluate_batch(self, batch):
        from .. import kernel

        work.record(kernel.current(), "draw", self.draw())
        batch.set_evals(torch.sum(plain(batch.values) ** 2, dim=-1))


def _streams(sim, seed, na, cut, rounds, popsizes, broadcast):
    """Run a problem and collect, per worker and generator, everything it has drawn."""
    cl = cluster()
    p = Drawing(num_actors=na, seed=seed, **cut)
    mark = len(sim.ledger)
    base = len(cl.actors)
    for n in popsizes:
        p.evaluate(p.generate_batch(n))
    on_demand = p.all_remote_problems().draw() if broadcast else []
    main = p.draw()
    out = {}
    for r in sim.ledger[mark:]:
        if r[0] == "draw":
            i = r[2]["index"]
            for g in ("python", "numpy", "torch", "problem"):
                out.setdefault((i, g), []).append(r[2][g])
    for d in on_demand:
        for g in ("python", "numpy", "torch", "problem"):
            out.setdefault((d["index"], g), []).append(d[g])
    for g in ("python", "numpy", "torch", "problem"):
        out.setdefault(("main", g), []).append(main[g])
    return out, p


def _check_distinct(sim, streams, seeded):
    seen = {}
    for (i, g), draws in streams.items():
        for k, triple in enumerate(draws):
            # within a generator family no two processes may produce the same numbers; torch
            # and the problem's own generator are the same family
            fam = "torch" if g in ("torch", "problem") else g
            tag = (fam, triple)
            if tag in seen and seen[tag] != (i, g, k):
                raise Violation(
                    "same-random-numbers", f"{fam}: draw {k} of {g} in process {i} repeats that of {seen[tag]}: {triple}"
                )
            seen[tag] = (i, g, k)
    sim.checks += 1


def c05_streams(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    cl.arm(3, stall=0.1)
    na = ch.rng_int(2, 6)
    seed = ch.pick([None, 0, 1, 12345, 2**32 - 1, 2**32 - 3])
    if seed is not None and ch.chance(0.5):
        seed = ch.draw(2**32 - 1)
    cut = {}
    sizes = [na * ch.rng_int(1, 3) for _ in range(ch.rng_int(1, 3))]
    streams, p = _streams(sim, seed, na, cut, 1, sizes, True)
    sim.check(
        set(i for i, _ in streams) == set(range(na)) | {"main"}, "worker-indices", lambda: f"processes {sorted(map(str, streams))}"
    )
    _check_distinct(sim, streams, seed is not None)
    if ch.chance(0.4):
        # replaced workers do not repeat what their predecessors did
        p.kill_actors()
        mark = len(sim.ledger)
        p.evaluate(p.generate_batch(na * 2))
        again = p.all_remote_problems().draw()
        for d in again:
            for g in ("python", "numpy", "torch", "problem"):
                streams.setdefault((("respawned", d["index"]), g), []).append(d[g])
        _check_distinct(sim, streams, seed is not None)
        sim.probe("respawned")
    if seed is not None:
        # the same seed in another environment, other delays
        for _ in range(ch.draw(5)):
            random.random(), np.random.rand(), torch.rand(1)
        other, _ = _streams(sim, seed, na, cut, 1, sizes, True)
        for i in range(na):
            for g in ("python", "numpy", "torch", "problem"):
                a, b = streams[(i, g)], other[(i, g)]
                sim.check(
                    a == b, "stream-not-function-of-seed", lambda: f"worker {i}, {g}: {a} and, with the same seed, {b}"
                )
        sim.check(streams[("main", "problem")][0] == other[("main", "problem")][0], "main-stream", "main stream differs")
        # another seed gives other streams
        third, _ = _streams(sim, (seed + 1000003) % 2**32, na, cut, 1, sizes, True)
        for i in range(na):
            sim.check(third[(i, "problem")] != streams[(i, "problem")], "seed-ignored", f"worker {i} ignores the seed")
            sim.check(third[(i, "python")] != streams[(i, "python")], "seed-ignored", f"worker {i} ignores the seed")
        sim.probe("seeded")


# ------------------------------------------------------------------------------------- C16


class Prepared(Problem):
    """Workers need preparation and shared data which is not shipped with the problem."""

    def __init__(self, fit, **kw):
        super().__init__("min", solution_length=2, initial_bounds=(-3, 3), dtype=torch.float64, **kw)
        self.fit = fit
        self.table = {"offset": 0.0}
        self.local = None

    @property
    def _nonserialized_attribs(self):
        return ["table", "local"]

    @property
    def _shared_attribs(self):
        return ["table"]

    def _prepare(self):
        self.local = 1.0

    def _evaluate_batch(self, batch):
        rows = []
        for x in batch.values:
            k = row_key(x)
            note_eval(k)
            rows.append([self.fit.expected(k)[0] * self.local + self.table["offset"]])
        batch.set_evals(torch.tensor(rows, dtype=torch.float64).reshape(len(batch), 1))


def c16_kill(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([2, 3, 4, 0])
    if ch.chance(0.3):
        fit = work.Fit(1, 0, ch.draw(3))
        made = work.Made(Prepared(fit, num_actors=na), fit, "prepared", torch.float64)
    else:
        made = make_problem(sim, num_actors=na, seed=(5 if ch.chance(0.3) else None), **splitting(sim, ch, na))
    p = made.problem
    history = []
    dead = False
    fresh = True  # the next evaluation has to start fresh workers
    alive_expected = 0
    for _ in range(ch.rng_int(2, 7)):
        act = ch.draw(3)
        if act == 0 or act == 1:
            n = ch.rng_int(1, 9)
            batch = p.generate_batch(n)
            ks = keys_of(batch)
            if act == 1 and ch.chance(0.6):
                cl.arm(2, crash_before=0.2, crash_after=0.2, lost_result=0.1, interrupt=0.05)
            mark = len(sim.ledger)
            f0 = len(cl.faulted)
            n_before = len(cl.actors)
            sim.log("evaluate", n)
            try:
                p.evaluate(batch)
                ok = True
            except OUTAGES:
                ok = False
            cl.disarm()
            if len(cl.faulted) > f0:
                dead = True
            if na >= 2:
                started = len(cl.actors) - n_before
                sim.check(
                    started == (na if fresh else 0),
                    "workers-started",
                    lambda: f"{started} workers were started, expected {na if fresh else 0}",
                )
                fresh = False
            if ok:
                check_evals(sim, made, batch, "wrong-after-kill")
                if not dead:
                    check_once(sim, ks, mark, "not-exactly-once")
                history.append((ks, plain(batch.evals)))
                check_records(sim, made, history)
                if dead:
                    sim.probe("worked-despite-dead-worker")
            else:
                sim.check(dead, "spurious-failure", "an evaluation failed although nothing was wrong")
                # the records are those of the evaluations which have completed
                check_records(sim, made, history, after_failure=True)
        else:
            times = ch.rng_int(1, 2)
            for _ in range(times):
                sim.log("kill workers")
                p.kill_actors()
            if na >= 2:
                sim.check(
                    not any(a.alive for a in cl.actors), "worker-left-alive", "a worker is alive after kill_actors()"
                )
            sim.check(p.actors is None, "actors-listed", "killed workers are still listed")
            if dead:
                sim.probe("killed-with-dead-worker")
            fresh, dead = True, False
            check_records(sim, made, history, after_failure=True)
    p.kill_actors()
    batch = p.generate_batch(ch.rng_int(1, 6))
    p.evaluate(batch)
    check_evals(sim, made, batch, "wrong-after-kill")
    history.append((keys_of(batch), plain(batch.evals)))
    check_records(sim, made, history)


# ------------------------------------------------------------------------------------- C20


def records_of(p):
    """(best list, worst list) as shown in the status; None if there are none."""
    st = p.status
    if "best" not in st:
        return None
    best, worst = st["best"], st["worst"]
    if isinstance(best, Solution):
        best, worst = [best], [worst]
    return list(best), list(worst)


def check_records(sim, made, history, after_failure=False, key="record"):
    p = made.problem
    if not history:
        return
    rec = records_of(p)
    if p.stores_solution_stats is False:
        sim.check(rec is None, key + "-unwanted", "the status shows best/worst solutions which were not to be stored")
        sim.probe("no-records-wanted")
        return
    sim.check(rec is not None, key + "-missing", "the status shows no best/worst solutions")
    best, worst = rec
    keys = [k for ks, _ in history for k in ks]
    evs = torch.cat([e for _, e in history])
    for j, sense in enumerate(p.senses):
        col = evs[:, j]
        lo, hi = float(col.min()), float(col.max())
        b, w = (lo, hi) if sense == "min" else (hi, lo)
        got_b, got_w = float(best[j].evals[j]), float(worst[j].evals[j])
        sim.check(got_b == b, key + "-best", lambda: f"objective {j}: best shown is {got_b}, best evaluated was {b}")
        sim.check(got_w == w, key + "-worst", lambda: f"objective {j}: worst shown is {got_w}, worst evaluated was {w}")
        for name, sln in (("best", best[j]), ("worst", worst[j])):
            k = row_key(sln.values)
            sim.check(k in keys, key + "-foreign", lambda: f"the {name} solution {k} was never evaluated")
            exp = made.expected_row(k)
            sim.check(
                same(plain(sln.evals), exp),
                key + "-inconsistent",
                lambda: f"the {name} solution {k} shows {sln.evals.tolist()} instead of {exp.tolist()}",
            )
        if len(p.senses) == 1:
            sim.check(
                float(p.status["best_eval"]) == b and float(p.status["worst_eval"]) == w,
                key + "-eval",
                lambda: f"best_eval={p.status['best_eval']} worst_eval={p.status['worst_eval']}, expected {b} and {w}",
            )


def check_comparison(sim, made, batch):
    """The comparison of solutions agrees with their fitnesses."""
    p, ch = made.problem, sim.ch
    a, b = ch.draw(len(batch)), ch.draw(len(batch))
    j = ch.draw(len(p.senses))
    x, y = float(batch.evals[a, j]), float(batch.evals[b, j])
    if math.isinf(x) and math.isinf(y):
        return
    if p.senses[j] == "min":
        x, y = -x, -y
    given = (batch[a], batch[b]) + (() if len(p.senses) == 1 and ch.chance(0.5) else (ch.pick([j, j - len(p.senses)]),))
    sign = float(p.compare_solutions(*given))
    got = (p.is_better(*given), p.is_worse(*given), (sign > 0) - (sign < 0))
    want = (x > y, x < y, (x > y) - (x < y))
    sim.check(tuple(map(int, got)) == tuple(map(int, want)), "comparison", lambda: f"comparing {given}: {got}, expected {want}")


def c20_records(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 2, 3])
    made = make_problem(sim, num_actors=na, store_solution_stats=ch.pick([None, True, None, True, None, True, False]), **splitting(sim, ch, na))
    p = made.problem
    if ch.chance(0.25):
        made.fit.wild = float(ch.pick(["inf", "-inf"]))
    history, pool = [], []
    for _ in range(ch.rng_int(2, 6)):
        act = ch.draw(5)
        if act <= 2 or not pool:
            if pool and ch.chance(0.25):
                batch = ch.pick(pool)
                sim.probe("evaluated-again")
            else:
                batch = p.generate_batch(ch.rng_int(1, 8))
                pool.append(batch)
            failing = ch.chance(0.3)
            if failing:
                arm_user_failures(sim, 1, 0.3)
                if ch.chance(0.5):
                    cl.arm(1, crash_after=0.2, lost_result=0.2)
            f0, u0 = len(cl.faulted), user_failures(sim)
            try:
                p.evaluate(batch)
                history.append((keys_of(batch), plain(batch.evals)))
                work.mark_batch(sim, batch)
                check_comparison(sim, made, batch)
            except OUTAGES:
                sim.check(len(cl.faulted) > f0 or user_failures(sim) > u0, "spurious-failure", "failed without a fault")
                p.kill_actors()
                sim.probe("failed-evaluation")
            cl.disarm()
            disarm_user_failures(sim)
        elif act == 3:
            # the user changes populations afterwards
            b = ch.pick(pool)
            if made.kind == "object":
                b.forget_evals()
            else:
                x = b.access_values(keep_evals=ch.chance(0.5))
                x[:] = x * 3 + 1
            sim.probe("population-modified-later")
        else:
            b = ch.pick(pool)
            b.set_evals(torch.full((len(b), made.fit.nobj + made.fit.ndata), 1e9 * (-1) ** ch.draw(2), dtype=made.eval_dtype))
            sim.probe("evals-overwritten-later")
        check_records(sim, made, history)
    if ch.chance(0.3) and history:
        q = p.clone() if ch.chance(0.5) else work.reload(p)
        made2 = work.Made(q, made.fit, made.kind, made.eval_dtype)
        b = q.generate_batch(3)
        q.evaluate(b)
        check_records(sim, made2, history + [(keys_of(b), plain(b.evals))])
        check_records(sim, made, history)


# ------------------------------------------------------------------------------------- C30


class Synced(Problem):
    """User-defined synchronization."""

    def __init__(self, mode, **kw):
        super().__init__("min", solution_length=3, initial_bounds=(-2, 2), dtype=torch.float64, **kw)
        self.mode = mode
        self.version = 0
        self.terse = self.ask_terse = False  # workers which answer with nothing
        self.got = "nothing"
        self.received = []
        self.done = 0

    def _make_sync_data_for_actors(self):
        if self.mode == "off":
            return NotImplemented
        if self.mode == "none":
            return None
        if self.mode == "bare":  # anything which is not None is to be sent, also what is false
            return self.version
        return {"version": self.version, "blob": torch.full((2,), float(self.version)), "terse": self.ask_terse}

    def _use_sync_data_from_main(self, received):
        from .. import kernel

        if isinstance(received, dict) and "version" in received:
            assert float(received["blob"][0]) == received["version"]
            self.terse = received["terse"]
            received = received["version"]
        self.got = received
        work.record(kernel.current(), "sync-in", received)

    def _make_sync_data_for_main(self):
        from .. import kernel

        work.record(kernel.current(), "sync-out")
        return None if self.terse else (self.actor_index, self.done)

    def _use_sync_data_from_actors(self, received):
        from .. import kernel

        work.record(kernel.current(), "sync-main", list(received))
        self.received.append(list(received))

    def _evaluate_batch(self, batch):
        from .. import kernel

        self.done += len(batch)
        work.record(kernel.current(), "task", self.got, len(batch))
        for x in batch.values:
            note_eval(row_key(x))
        batch.set_evals(torch.sum(plain(batch.values) ** 2, dim=-1))


def c30_sync(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    cl.arm(3, stall=0.15)
    na = ch.pick([2, 3, 5, 0])
    mode = ch.pick(["data", "bare", "none", "off"])
    cut = splitting(sim, ch, na)
    p = Synced(mode, num_actors=na, **cut)
    done = {i: 0 for i in range(na)}
    told = "nothing"
    terse = False  # what the workers were told the last
    for _ in range(ch.rng_int(1, 4)):
        if ch.chance(0.25):
            p.mode = mode = ch.pick(["data", "bare", "none", "off"])
        p.version = ch.rng_int(1, 1000) if mode == "data" else ch.pick([7, 0, False, {}, "", [], ()])
        p.ask_terse = ch.chance(0.2)
        if mode in ("data", "bare") and na:
            told = p.version
            terse = p.ask_terse if mode == "data" else terse
        mark = len(sim.ledger)
        act = ch.draw(3)
        if act <= 1:
            n = ch.rng_int(1, 9)
            sim.log("evaluate", n)
            p.evaluate(p.generate_batch(n))
        else:
            from evotorch.distributions import SeparableGaussian

            dist = SeparableGaussian({"mu": torch.zeros(3, dtype=torch.float64), "sigma": torch.ones(3, dtype=torch.float64)})
            unit = cut.get("subbatch_size", max(1, na, cut.get("num_subbatches", 1)))
            sim.log("gradients")
            p.sample_and_compute_gradients(dist, unit * ch.rng_int(1, 3))
        ev = sim.ledger[mark:]
        tasks = [(i, r) for i, r in enumerate(ev) if r[0] == "task"]
        ins = [(i, r) for i, r in enumerate(ev) if r[0] == "sync-in"]
        outs = [(i, r) for i, r in enumerate(ev) if r[0] == "sync-out"]
        mains = [(i, r) for i, r in enumerate(ev) if r[0] == "sync-main"]
        if na == 0 or mode == "off":
            sim.check(not ins and not outs and not mains, "unwanted-sync", lambda: f"synchronization happened: {ev}")
            if na == 0:
                continue
        else:
            if mode in ("data", "bare"):
                sim.check(
                    sorted(r[1] for _, r in ins) == list(range(na)), "sync-in-count", lambda: f"data delivered to {ins}"
                )
                sim.check(all(r[2] == p.version for _, r in ins), "sync-in-value", lambda: f"{ins} instead of {p.version}")
                sim.check(
                    not tasks or max(i for i, _ in ins) < min(i for i, _ in tasks),
                    "sync-in-late",
                    "a task started before all workers were synchronized",
                )
            else:
                sim.check(not ins, "unwanted-sync-in", lambda: f"{ins}")
            sim.check(
                all(r[2] == told for _, r in tasks),
                "stale-task",
                lambda: f"tasks ran with {[(r[1], r[2]) for _, r in tasks]}, current is {told}",
            )
            sim.check(sorted(r[1] for _, r in outs) == list(range(na)), "sync-out-count", lambda: f"replies of {outs}")
            sim.check(
                not tasks or min(i for i, _ in outs) > -1 and all(
                    max([i for i, t in tasks if t[1] == o[1]] or [-1]) < io for io, o in outs
                ),
                "sync-out-early",
                "a worker replied before its tasks were finished",
            )
            sim.check(len(mains) == 1 and mains[0][1][1] == "main", "sync-main-count", lambda: f"{mains}")
            for i, r in tasks:
                done[r[1]] += r[3]
            got = mains[0][1][2]
            sim.check(
                got == [None if terse else (i, done[i]) for i in range(na)],
                "sync-main-value",
                lambda: f"the main problem received {got}, workers have done {done}",
            )
            sim.probe("synchronized")
            continue
        for i, r in tasks:
            if r[1] != "main":
                done[r[1]] += r[3]


# ------------------------------------------------------------------------------------- C32


def c32_callable(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 2, 3])
    made = make_problem(sim, kinds=("fn", "vec", "batch", "solution"), num_actors=na, ints=False, **splitting(sim, ch, na))
    p = made.problem
    if p.dtype != p.eval_dtype:
        try:
            p.make_callable_evaluator(obj_index=0)
        except TypeError:
            sim.check(True, "ok")
            return
        raise Violation("dtype-mismatch-accepted", "an evaluator was made for different dtypes")
    nobj = len(p.senses)
    j = ch.draw(nobj)
    if nobj == 1 and ch.chance(0.5):
        f = p.make_callable_evaluator()
    elif ch.chance(0.3):
        f = p.make_callable_evaluator(obj_index=j - nobj)
    else:
        f = p.make_callable_evaluator(obj_index=j)
    for _ in range(ch.rng_int(1, 3)):
        ndim = ch.draw(4)
        shape = tuple(ch.rng_int(1, 4) for _ in range(ndim)) + (p.solution_length,)
        g = torch.Generator()
        g.manual_seed(ch.draw(10**6))
        x = torch.rand(shape, generator=g, dtype=p.dtype) * 6 - 3
        if ndim >= 2 and ch.chance(0.3):
            x = x.transpose(0, 1)
        if ndim >= 1 and ch.chance(0.2):
            x = x.flip(0)
        orig = x.clone()
        failing = ch.chance(0.25)
        if failing:
            arm_user_failures(sim, 1, 0.4)
            cl.arm(1, crash_after=0.1, lost_result=0.1)
        f0, u0 = len(cl.faulted), user_failures(sim)
        mark = len(sim.ledger)
        sim.log("call", shape)
        try:
            y = f(x)
            ok = True
        except OUTAGES:
            ok = False
        cl.disarm()
        disarm_user_failures(sim)
        faulted = len(cl.faulted) > f0 or user_failures(sim) > u0
        sim.check(same(x, orig), "input-changed", "the evaluator changed its input")
        if ok:
            sim.check(not faulted, "failure-swallowed", "the evaluator returned although a worker failed")
            sim.check(tuple(y.shape) == tuple(x.shape[:-1]), "shape", lambda: f"{tuple(x.shape)} -> {tuple(y.shape)}")
            flat = x.reshape(-1, x.shape[-1])
            exp = torch.stack([made.expected_row(row_key(r))[f_index(p, j)] for r in flat]).reshape(x.shape[:-1])
            sim.check(same(plain(y), exp), "wrong-result", lambda: f"{y.tolist()} instead of {exp.tolist()}")
            sim.check(y.dtype == p.eval_dtype, "dtype", lambda: f"{y.dtype}")
            check_once(sim, [row_key(r) for r in flat], mark, "not-exactly-once")
            y2 = y.clone()
            # a later call does not change what was returned
            f(x.clone() + 1)
            sim.check(same(y, y2), "result-aliased", "a later call changed an earlier result")
        else:
            sim.check(faulted, "spurious-failure", "the evaluator raised although nothing failed")
            p.kill_actors()
            sim.probe("raised")


def f_index(p, j):
    return j
