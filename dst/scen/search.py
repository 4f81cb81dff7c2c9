"""Search algorithms: C06 C15 C17 C21 C22 C23 C25."""

import copy
import itertools
import math
import pickle
import random
import types

import numpy as np
import torch

from evotorch import Problem, Solution, SolutionBatch
from evotorch.tools import Hook
from evotorch.algorithms import SNES, GeneticAlgorithm, SearchAlgorithm
from evotorch.logging import PandasLogger

from .. import algs, kernel, simray, work
from ..algs import diff, draw_conf, expected_size, freeze, make_alg, make_grid, make_made, snapshot
from ..kernel import INJECTED, InjectedError, Violation
from ..simray import cluster
from ..work import arm_user_failures, check_evals, disarm_user_failures, keys_of, plain, row_key, same, splitting, user_failures
from .evaluation import OUTAGES, draw_cluster


def disturb(sim):
    """Things which happen in the process besides the search."""
    ch = sim.ch
    k = ch.draw(6)
    if k == 1:
        simray.set_rng(simray.fresh_rng(ch.seed()))
        sim.fault("foreign_reseed")
    elif k == 2:
        random.random(), np.random.rand(3), torch.rand(5), torch.randn(2)
        sim.fault("foreign_draws")
    elif k == 3:
        sim.now += ch.pick([-1e6, -1.0, 3600.0, 1e7])
        sim.fault("clock_jump")
    elif k == 4:
        p = Problem("min", torch.sum, solution_length=2, initial_bounds=(-1, 1), seed=ch.draw(50))
        SNES(p, stdev_init=1.0, popsize=4).run(1)
        sim.fault("foreign_search")


def noisy_steps(sim, alg, n, quiet=False, view=snapshot):
    out = []
    for _ in range(n):
        if not quiet and sim.faults_on:
            disturb(sim)
        alg.step()
        out.append(view(alg))
        sim.log("step", alg.step_count)
    return out


def compare(sim, ref, got, first, key, what):
    for i, (a, b) in enumerate(zip(ref, got)):
        sim.check(
            a == b, key, lambda: f"{what}: step {first + i + 1} differs in {diff(a, b)}", details=repr([(k, a.get(k), b.get(k)) for k in diff(a, b)])[:2000]
        )


def c06_reproducible(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, max_obj=2, objects=True)
    maybe_restarter(sim, conf)
    steps = ch.rng_int(1, 4)
    par = ch.chance(0.5)
    sim.log(conf["kind"], conf["fit"], steps, par)

    def once(first):
        na = 0 if not par else ch.rng_int(2, 5)
        if not first:
            simray.set_rng(simray.fresh_rng(ch.seed()))
            if sim.faults_on:
                sim.now += ch.pick([0.0, -5e5, 1e6])
                disturb(sim)
        cl.arm(2, stall=0.1)
        made = make_made(conf, num_actors=na, **(splitting(sim, ch, na) if par else {}))
        if not first and sim.faults_on:
            disturb(sim)
        alg = make_alg(conf, made)
        t = noisy_steps(sim, alg, steps, quiet=first and not sim.faults_on, view=with_records)
        return t

    ref = once(True)
    for _ in range(ch.rng_int(1, 2)):
        compare(sim, ref, once(False), 0, "not-reproducible", f"{conf['kind']} with seed {conf['seed']}")
    sim.probe("kind-" + conf["kind"])


def c15_resume(sim):
    ch = sim.ch
    draw_cluster(sim)
    conf = draw_conf(sim, max_obj=2, objects=True)
    maybe_restarter(sim, conf)
    steps = ch.rng_int(1, 6)
    na = ch.pick([0, 0, 2, 3])
    cut = splitting(sim, ch, na) if na else {}
    sim.log(conf["kind"], conf["fit"], steps, na)

    every = ch.pick([0, 0, 1, 2, 3])
    first = ch.chance(0.3)
    counting = ch.chance(0.3)

    def start():
        alg = make_alg(conf, make_made(conf, num_actors=na, **cut))
        if every:
            PandasLogger(alg, interval=every, after_first_step=first)
        if counting:
            alg.after_step_hook.append(Counting())
        return alg

    sim.probe("kind-" + conf["kind"])
    resume(sim, start, steps, conf["kind"], na, view=with_records)


def maybe_restarter(sim, conf):
    """Sometimes the search is run by a restarter."""
    ch = sim.ch
    if conf["kind"] in ("SNES", "CEM", "XNES") and len(conf["senses"]) == 1 and ch.chance(0.3):
        conf["ipop"] = ch.pick([(1.0, 2), (5.0, 1.5), (1e9, 1.5), (0.0, 2), (20.0, 2)])
        sim.probe("restarter")
        sim.log("ipop", conf["ipop"])


class Counting:
    """An after-step hook with a state."""

    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return {"counted": self.n}


def with_records(alg):
    """The search, and what the loggers which belong to it have collected."""
    d = snapshot(alg, skip=("search_algorithm",))
    inner = getattr(alg, "search_algorithm", None)
    if inner is not None and inner.step_count > 0:
        d.update({"inner " + k: v for k, v in snapshot(inner).items()})
    for h in alg.log_hook:
        if isinstance(h, PandasLogger):
            d["records"] = repr(h.to_dataframe(index=None).to_dict("records"))
    return d


def resume(sim, start, steps, kind, na, view=snapshot):
    """The search which `start` makes is compared with itself, once undisturbed and once saved,
    crashed and restored in between."""
    ch = sim.ch
    ref = noisy_steps(sim, start(), steps, quiet=True, view=view)
    simray.set_rng(simray.fresh_rng(ch.seed()))
    sim.ray = simray.Cluster(sim)
    draw_cluster(sim)
    alg = start()
    done = 0
    saved = (0, pickle.dumps(alg))
    crashes = 0
    budget = ch.rng_int(1, 2)
    while done < steps:
        if done > 0 and ch.chance(0.5):
            if ch.chance(0.3):
                data = copy.deepcopy(alg)
                sim.log("copied", done)
            else:
                data = pickle.dumps(alg)
                sim.log("saved", done)
            saved = (done, data)
            sim.probe("saved-after-%d" % min(done, 3))
        crash = None
        if crashes < budget and ch.chance(0.4):
            crash = ch.pick(["before", "within"])
        if crash == "within" and sim.faults_on:
            arm_user_failures(sim, 1, 0.3)
            c0 = user_failures(sim)
            try:
                got = noisy_steps(sim, alg, 1, view=view)
            except InjectedError:
                pass
            disarm_user_failures(sim)
            if user_failures(sim) == c0:
                # it survived
                compare(sim, ref[done:], got, done, "disturbed", f"{kind} after saving")
                done += 1
                crash = None
        elif crash is None:
            got = noisy_steps(sim, alg, 1, view=view)
            compare(sim, ref[done:], got, done, "diverged", f"{kind}, {crashes} restores, {na} workers")
            done += 1
        if crash is not None:
            crashes += 1
            sim.fault("process_crash")
            # a new process: nothing but the saved bytes is left
            del alg
            simray.set_rng(simray.fresh_rng(ch.seed()))
            if isinstance(saved[1], bytes):
                sim.ray = simray.Cluster(sim)
                draw_cluster(sim)
                alg = pickle.loads(saved[1])
            else:
                alg = copy.deepcopy(saved[1])
            done = saved[0]
            sim.check(alg.step_count == done, "step-count", lambda: f"restored with {alg.step_count} steps, saved after {done}")
            sim.probe("restored")


# ------------------------------------------------------------------------------------ C17


class Rec:
    """A hook that records when it is called and with what."""

    lead, kw = (), {}

    def __init__(self, log, name, ret=None, fail_at=()):
        self.log, self.name, self.ret, self.fail_at, self.n = log, name, ret, set(fail_at), 0

    def __call__(self, *args, **kw):
        self.n += 1
        kernel.current().check(
            args[: len(self.lead)] == self.lead and kw == self.kw,
            "hook-own-args",
            lambda: f"{self.name} got {args[: len(self.lead)]} and {kw}, its own arguments are {self.lead} and {self.kw}",
        )
        self.log.append((self.name, args[len(self.lead) :]))
        if self.n in self.fail_at:
            kernel.current().fault("hook_error", self.name)
            raise kernel.current().ch.pick(INJECTED)(self.name)
        if self.ret == "dict":
            return {f"{self.name}.n": self.n}
        if self.ret == "shared":
            return {"shared": (self.name, self.n)}
        if self.ret == "view":
            return types.MappingProxyType({f"{self.name}.n": self.n})
        return None

    def said(self):
        return {"dict": {f"{self.name}.n": self.n}, "view": {f"{self.name}.n": self.n}, "shared": {"shared": (self.name, self.n)}}.get(self.ret, {})


class Telling:
    """A function of a hook which returns something (or fails)."""

    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        if isinstance(self.answer, Exception):
            kernel.current().fault("hook_error", "telling")
            raise self.answer
        return self.answer


def c17_hooks(sim):
    """Hooks on their own: who is called, with which arguments, and what comes of the answers."""
    ch = sim.ch
    taste = ch.pick(["dicts", "lists", "mixed"])

    def answer():
        if sim.faults_on and ch.chance(0.08):
            return ch.pick(INJECTED)("telling")
        kind = ch.pick({"dicts": ["none", "dict", "dict", "view"], "lists": ["none", "list", "list", "tuple"], "mixed": ["none", "dict", "list", "number", "view"]}[taste])
        d = {k: ch.draw(9) for k in ch.sample("abcd", ch.draw(4))}
        q = [ch.draw(9) for _ in range(ch.draw(4))]
        return {"none": None, "dict": d, "view": types.MappingProxyType(d), "list": q, "tuple": tuple(q), "number": 3}[kind]

    fns = [Telling(answer()) for _ in range(ch.draw(5))]
    own_args = [ch.draw(9) for _ in range(ch.draw(3))]
    own_kw = {k: ch.draw(9) for k in ch.sample("pqr", ch.draw(3))}
    args_given, kw_given, fns_given = list(own_args), dict(own_kw), list(fns)
    h = Hook(fns_given, args=args_given, kwargs=kw_given)
    # the hook has lists of its own
    args_given.append(77)
    kw_given["late"] = 1
    fns_given.append(Telling({"late": 1}))
    for _ in range(ch.draw(4)):
        # the list is edited
        how = ch.draw(8)
        i = ch.draw(len(fns) + 1)
        if how == 0 or not fns:
            f = Telling(answer())
            fns.append(f)
            h.append(f)
        elif how == 1:
            f = Telling(answer())
            fns.insert(i, f)
            h.insert(i, f)
        elif how == 2:
            i = ch.draw(len(fns))
            sim.check(h.pop(i) is fns.pop(i), "hook-pop", "another function was taken out of the hook")
        elif how == 3:
            more = [Telling(answer()) for _ in range(ch.draw(3))]
            fns.extend(more)
            h.extend(more)
        elif how == 4:
            f = ch.pick(fns)
            fns.remove(f)
            h.remove(f)
        elif how == 5:
            fns.reverse()
            h.reverse()
        elif how == 6:
            more = [Telling(answer()) for _ in range(ch.draw(3))]
            fns[i:] = more
            h[i:] = more
        else:
            part = h[:i]
            sim.check(isinstance(part, Hook) and list(part) == fns[:i], "hook-part", "a part of a hook has other functions")
            if ch.chance(0.5):
                h, fns = part, fns[:i]
        sim.check(list(h) == fns and len(h) == len(fns), "hook-list", "the hook does not have the functions put into it")
    if fns:
        f = ch.pick(fns)
        sim.check(h.index(f) == fns.index(f) and f in h and h.count(f) == 1, "hook-list", "a function of the hook is not found")
    for _ in range(ch.rng_int(1, 3)):
        for f in fns:
            f.calls.clear()
        call_args = [ch.draw(9) for _ in range(ch.draw(3))]
        call_kw = {k: ch.draw(9) for k in ch.sample("rst", ch.draw(3))}
        mode = ch.pick(["call", "dict", "sequence"])
        # what should come of it
        want, end, called = None, None, 0
        for f in fns:
            a = f.answer
            called += 1
            if isinstance(a, Exception):
                end = type(a)
                break
            if a is None:
                continue
            if isinstance(a, int) or (want is not None and isinstance(want, dict) != (not isinstance(a, (list, tuple)))):
                end = TypeError
                break
            if isinstance(a, (list, tuple)):
                want = (want or []) + list(a)
            else:
                want = {**(want or {}), **a}
        if end is None:
            if mode == "dict":
                end = TypeError if isinstance(want, list) else None
                want = {} if want is None else want
            elif mode == "sequence":
                end = TypeError if isinstance(want, dict) else None
                want = [] if want is None else want
        frozen = [list(f.answer) if isinstance(f.answer, (list, tuple)) else dict(f.answer) if hasattr(f.answer, "items") else f.answer for f in fns]
        sim.log(mode, len(fns), want, end)
        fn = {"call": h, "dict": h.accumulate_dict, "sequence": h.accumulate_sequence}[mode]
        try:
            got, err = fn(*call_args, **call_kw), None
        except Exception as e:
            got, err = None, e
        if end is not None:
            sim.check(type(err) is end, "hook-error", lambda: f"{mode}: {err!r} instead of {end.__name__}")
            sim.probe("hook-failed")
        else:
            sim.check(err is None, "hook-error", lambda: f"{mode} failed: {err!r}")
            sim.check(got == want and type(got) is type(want), "hook-result", lambda: f"{mode} returned {got!r} instead of {want!r}")
            sim.probe(f"hook-{mode}")
        for i, f in enumerate(fns):
            exp = [(tuple(own_args + call_args), {**own_kw, **call_kw})] if i < called else []
            sim.check(f.calls == exp, "hook-calls", lambda: f"function {i} was called as {f.calls}, expected {exp}")
        now = [list(f.answer) if isinstance(f.answer, (list, tuple)) else dict(f.answer) if hasattr(f.answer, "items") else f.answer for f in fns]
        sim.check(now == frozen, "hook-answer-changed", "calling the hook has changed what one of its functions holds")


def c17_protocol(sim):
    ch = sim.ch
    draw_cluster(sim)
    conf = draw_conf(sim, max_obj=2, objects=True)
    na = ch.pick([0, 0, 2])
    made = make_made(conf, num_actors=na)
    alg = make_alg(conf, made)
    sim.log(conf["kind"], conf["fit"], conf["args"], na)
    p = made.problem
    log = []
    fails = sim.faults_on

    def fail_at():
        return [ch.rng_int(1, 6)] if fails and ch.chance(0.2) else []

    real = {
        "before": alg.before_step_hook,
        "after": alg.after_step_hook,
        "log": alg.log_hook,
        "end": alg.end_of_run_hook,
        "eval": p.after_eval_hook,
    }
    entries = {w: [] for w in real}  # for each hook, what was put into it: lists of recorders
    made_up = [0]

    def new_entry(where):
        def rec():
            made_up[0] += 1
            ret = ch.pick([None, "dict", "shared", "view"]) if where in ("after", "eval") else None
            return Rec(log, f"{where}{made_up[0]}", ret, fail_at())

        if not ch.chance(0.25):
            r = rec()
            return [r], r
        # a group of functions which get arguments of their own
        group = [rec() for _ in range(ch.draw(3))]
        lead = tuple("abc"[: ch.draw(3)])
        kw = {"k": ch.draw(5)} if ch.chance(0.5) else {}
        for r in group:
            r.lead, r.kw = lead, kw
        how = ch.draw(3)
        if how == 0:
            h = Hook(group, args=lead, kwargs=kw)
        elif how == 1:
            # a part of a larger group
            more = Hook([rec(), *group, rec()], args=lead, kwargs=kw)
            h = more[1:-1]
            del more[:]
        else:
            h = Hook(args=lead, kwargs=kw)
            for r in group:
                h.append(r)
        sim.probe("hooks-in-groups")
        return group, h

    for where, hook in real.items():
        for _ in range(max(ch.draw(3), 1 if where in ("before", "after") else 0)):
            group, h = new_entry(where)
            entries[where].append(group)
            hook.append(h)

    def edit():
        """The user changes which functions are called."""
        where = ch.pick(list(real))
        hook, have = real[where], entries[where]
        kind = ch.draw(5)
        if kind == 0 or not have:
            group, h = new_entry(where)
            hook.append(h)
            have.append(group)
        elif kind == 1:
            i = ch.draw(len(have) + 1)
            group, h = new_entry(where)
            hook.insert(i, h)
            have.insert(i, group)
        elif kind == 2:
            i = ch.draw(len(have))
            del hook[i]
            del have[i]
        elif kind == 3:
            i = ch.draw(len(have))
            have[i], hook[i] = new_entry(where)
        else:
            i = ch.draw(len(have))
            hook[i:] = [hook[j] for j in range(i, len(have))][::-1]
            have[i:] = have[i:][::-1]
        sim.check(len(hook) == len(have), "hook-length", lambda: f"the hook has {len(hook)} entries, expected {len(have)}")
        sim.probe("hooks-edited")

    if fails and ch.chance(0.3):
        arm_user_failures(sim, 1, 0.05)
    sim.check(alg.step_count == 0, "initial-count", "steps are counted before the first one")
    good_steps = 0
    counted = 0
    prev_first = None

    def segment(names, mark, complete):
        """The calls logged since mark must be the given sequence (or a prefix of it)."""
        got = [n for n, _ in log[mark:] if not n.startswith("eval")]
        if complete:
            sim.check(got == names, "hook-order", lambda: f"hooks ran as {got}, expected {names}")
        else:
            sim.check(got == names[: len(got)], "hook-order", lambda: f"hooks ran as {got}, expected a prefix of {names}")
        return got

    for _ in range(ch.rng_int(1, 4)):
        if ch.chance(0.3):
            edit()
        hooks = {w: [r for group in e for r in group] for w, e in entries.items()}
        names1 = [r.name for r in hooks["before"]]
        names2 = [r.name for r in hooks["after"]]
        names3 = [r.name for r in hooks["log"]]
        step_names = names1 + names2 + names3
        end_names = [r.name for r in hooks["end"]]
        if sim.faults_on and ch.chance(0.3):
            sim.now += ch.pick([-1e6, 1e7, -1.0])
            sim.fault("clock_jump")
        mark = len(log)
        before = alg.step_count
        mode = ch.draw(3)
        n = 1 if mode == 0 else ch.rng_int(0 if before else 1, 3)
        n0 = {r.name: r.n for h in hooks.values() for r in h}
        failed = False
        t_before = sim.now
        old_first = alg.first_step_datetime
        reset = True
        try:
            if mode == 0:
                alg.step()
            else:
                if mode == 2:
                    reset = False
                    alg.run(n, reset_first_step_datetime=False)
                else:
                    alg.run(n)
        except InjectedError:
            failed = True
            sim.probe("failed-step")
        full = step_names * n + (end_names if mode else [])
        got = segment(full, mark, not failed)
        sim.log("ran", mode, n, failed, got)
        if failed:
            # the counter point lies between the generation and the after-step hooks
            inc = alg.step_count - before
            full_steps, rest = divmod(len(got), max(1, len(step_names)))
            if full_steps >= n:
                want = n
            else:
                want = full_steps + (1 if rest > len(names1) else 0)
            if not names1 or not names2:
                break  # (nothing tells whether the failing step was finished)
            sim.check(inc == want, "counter-on-failure", lambda: f"{inc} steps were counted, {want} generations were finished")
            break  # what a search does after a failed step is up to its own state
        sim.check(alg.step_count == before + n, "step-count", lambda: f"{alg.step_count - before} steps were counted for {n}")
        # arguments and status
        count = before
        last_log = None
        for name, args in log[mark:]:
            if name.startswith("before"):
                sim.check(len(args) == 0, "hook-args", f"{name} got arguments")
            elif name.startswith("after"):
                sim.check(len(args) == 0, "hook-args", f"{name} got arguments")
            elif name.startswith("log") or name.startswith("end"):
                sim.check(len(args) == 1 and isinstance(args[0], dict), "hook-args", f"{name} did not get one dictionary")
        if n:
            st = alg.status
            sim.check(st["iter"] == alg.step_count, "status-iter", lambda: f"iter is {st['iter']} after {alg.step_count} steps")
            last = {}
            for r in hooks["eval"]:
                last.update(r.said())
            for r in hooks["after"]:
                last.update(r.said())
            for key, val in last.items():
                sim.check(key in st and st[key] == val, "status-hook-item", lambda: f"status[{key!r}] is {st[key] if key in st else 'missing'}, the hook reported {val}")
            pst = p.status
            for key in st:
                v = st[key]
                if isinstance(v, torch.Tensor) and v.numel() and v.is_floating_point():
                    # what the status shows cannot be used for changing the search by accident
                    was = freeze(v)
                    try:
                        v += 1
                    except Exception:
                        sim.probe("status-protected")
                    sim.check(freeze(st[key]) == was, "status-writable", lambda: f"writing to status[{key!r}] has changed the search")
            for key in pst:
                if key not in last:
                    sim.check(freeze(st[key]) == freeze(pst[key]), "status-problem-item", lambda: f"status[{key!r}] differs from the problem's")
            # every log hook call has seen the status of its own iteration
            it = before
            seen = {}
            for name, args in log[mark:]:
                if name.startswith("log"):
                    seen.setdefault(name, []).append(args[0].get("iter"))
                if name.startswith("end"):
                    sim.check(args[0].get("iter") == alg.step_count, "end-status", "the end-of-run hook saw another iteration")
            for name, its in seen.items():
                want = list(range(before + 1, before + n + 1))
                sim.check(its == want, "log-status", lambda: f"{name} saw the iterations {its}, expected {want}")
            ft = alg.first_step_datetime
            sim.check(ft is not None, "first-step-time", "the time of the first step is not set")
            if mode == 1 or old_first is None:
                sim.check(t_before - 0.001 <= ft.timestamp() <= sim.now + 0.001, "first-step-time", lambda: f"first step at {ft.timestamp()}, the run started at {t_before}")
            else:
                sim.check(ft == old_first, "first-step-time", "the time of the first step has changed")
        sim.probe("protocol-ok")


class Supplier:
    """Computes a value of the status; sometimes it fails."""

    def __init__(self, name, number, calls):
        self.name, self.number, self.calls = name, number, calls

    def value(self, n):
        return torch.tensor([float(self.number), float(n)]) if self.number % 3 == 2 else (self.name, self.number, n)

    def __call__(self):
        sim = kernel.current()
        n = self.calls[self.name] = self.calls.get(self.name, 0) + 1
        if sim.faults_on and sim.state.get("failing") and sim.ch.chance(0.3):
            sim.fault("status_error", self.name)
            raise sim.ch.pick(INJECTED)(self.name)
        return self.value(n)


class Own(SearchAlgorithm):
    """A search of the user's."""

    def __init__(self, problem, **getters):
        super().__init__(problem, **getters)
        self.done = 0

    def _step(self):
        sim = kernel.current()
        if sim.faults_on and sim.state.get("failing") and sim.ch.chance(0.15):
            sim.fault("step_error")
            raise sim.ch.pick(INJECTED)("step")
        self.problem.evaluate(self.problem.generate_batch(2))
        self.done += 1


def c17_status(sim):
    """What the status shows, how often it is computed, and what failing computations leave behind."""
    ch = sim.ch
    calls, numbers = {}, [0]

    def supplier(name):
        numbers[0] += 1
        return Supplier(name, numbers[0], calls)

    made = make_made(draw_conf(sim, ("SNES",)))
    p = made.problem
    getters = {name: supplier(name) for name in ch.sample(["a", "b", "c"], ch.rng_int(1, 3))}
    alg = Own(p, **getters)
    getters = dict(getters)
    stored = {}
    logged = []
    if ch.chance(0.5):
        alg.log_hook.append(logged.append)
    steps = 0

    def show(x):
        if isinstance(x, Solution):
            x = torch.cat([plain(x.values), plain(x.evals)])
        return freeze(x) if isinstance(x, torch.Tensor) else x

    def read(key, how):
        """Get one item, return whether that was possible; the model follows."""
        before = calls.get(key, 0)
        try:
            got = how()
        except InjectedError:
            sim.check(key not in stored and key in getters, "needless-computation", lambda: f"{key!r} was known, and computed again")
            sim.check(calls[key] == before + 1, "computations", lambda: f"{key!r} was computed {calls[key] - before} times for one answer")
            sim.probe("failed-item")
            return False
        if key not in stored:
            sim.check(calls.get(key, 0) == before + 1, "computations", lambda: f"{key!r} was computed {calls.get(key, 0) - before} times for one answer")
            stored[key] = getters[key].value(before + 1)
        else:
            sim.check(calls.get(key, 0) == before, "needless-computation", lambda: f"{key!r} was known, and computed again")
        sim.check(show(got) == show(stored[key]), "status-value", lambda: f"status[{key!r}] is {got}, expected {stored[key]}")
        return True

    def missing(key):
        try:
            alg.status[key]
        except KeyError:
            return
        sim.check(False, "foreign-item", f"the status has the item {key!r}, nothing has put it there")

    sim.state["failing"] = True
    for _ in range(ch.rng_int(3, 12)):
        op = ch.pick(["read", "read", "step", "step", "update", "getters", "clear", "look", "all", "restore"])
        known = list(dict.fromkeys(list(getters) + list(stored)))
        st = alg.status
        sim.log(op, steps)
        if op == "read":
            key = ch.pick(known + ["zz"])
            if key == "zz":
                missing(key)
            elif key in stored or key in getters and getters[key] is not None:
                read(key, ch.pick([lambda: alg.status[key], lambda: st[key], lambda: alg.get_status_value(key)]))
            else:
                sim.check(st[key] is None, "status-value", lambda: f"{key!r} is not known any more, the status shows {st[key]}")
                stored[key] = None
        elif op == "step":
            mark = len(logged)
            seen = dict(calls)
            try:
                alg.step()
                ok = True
            except InjectedError:
                ok = False
                sim.probe("failed-step")
            stored.clear()
            if alg.done > steps:
                steps += 1
                stored["iter"] = steps
                for key in p.status:
                    stored[key] = p.status[key]
                for key in stored:
                    getters.setdefault(key, None)
            sim.check(alg.step_count == steps, "step-count", lambda: f"{alg.step_count} steps are counted, {steps} were made")
            sim.check(len(logged) == mark + (ok and len(alg.log_hook) > 0), "log-calls", "the status was not logged once per step")
            tried = [k for k in getters if getters[k] is not None and calls.get(k, 0) > seen.get(k, 0)]
            for k in tried:
                sim.check(len(alg.log_hook) > 0, "needless-computation", lambda: f"{k!r} was computed by a step, nobody has asked")
                sim.check(calls[k] == seen.get(k, 0) + 1, "computations", lambda: f"{k!r} was computed {calls[k] - seen.get(k, 0)} times in a step")
            if ok and len(alg.log_hook):
                for k in getters:
                    if getters[k] is not None and k not in stored:
                        sim.check(k in tried, "computations", lambda: f"{k!r} was not computed for the log")
                        stored[k] = getters[k].value(calls[k])
                    elif k not in stored:
                        stored[k] = None  # (given once, and not renewed)
                got = logged[-1]
                sim.check(
                    set(got) == set(getters) and all(show(got[k]) == show(stored[k]) for k in got),
                    "logged-status",
                    lambda: f"the log got {got}, expected {stored}",
                )
            elif not ok:
                # what was computed before the failure is kept
                for k in tried[:-1] if alg.done == steps else []:
                    if k not in stored and alg.is_status_computed(k):
                        stored[k] = getters[k].value(calls[k])
                for k in getters:
                    if k not in stored and getters[k] is None and alg.is_status_computed(k):
                        stored[k] = None
        elif op == "update":
            numbers[0] += 1
            new = {ch.pick(["a", "b", "x", "y"]): ("told", numbers[0])}
            alg.update_status(new if ch.chance(0.5) else types.MappingProxyType(new))
            for k, v in new.items():
                getters.setdefault(k, None)
                stored[k] = v
        elif op == "getters":
            key = ch.pick(["a", "b", "x", "v"])
            g = supplier(key)
            alg.add_status_getters({key: g})
            getters[key] = g
        elif op == "clear":
            alg.clear_status()
            stored.clear()
        elif op == "look":
            seen = dict(calls)
            sim.check(len(st) == len(getters), "status-length", lambda: f"{len(st)} items, expected {sorted(getters)}")
            sim.check(sorted(st) == sorted(getters), "status-keys", lambda: f"the status has {sorted(st)}, expected {sorted(getters)}")
            for k in ["a", "b", "c", "x", "y", "v", "iter", "zz"]:
                sim.check((k in st) == (k in getters) == alg.has_status_key(k), "status-keys", lambda: f"{k!r}: {k in st}, {alg.has_status_key(k)}")
                sim.check(alg.is_status_computed(k) == (k in stored), "status-computed", lambda: f"{k!r} counts as computed: {alg.is_status_computed(k)}")
            text = ch.pick([repr, str])(st)
            for k in getters:
                sim.check(repr(stored[k]) in text if k in stored and not isinstance(stored[k], torch.Tensor) else k in text, "status-text", lambda: f"{k!r} is not shown by {text}")
            sim.check(calls == seen, "needless-computation", "looking at the status has computed it")
        elif op == "all":
            for k in sorted(getters):
                if getters[k] is not None or k in stored:
                    if not read(k, lambda: st[k]):
                        break
        else:
            sim.state["failing"] = False
            hooks = list(alg.log_hook)
            del alg.log_hook[:]
            alg = ch.pick([copy.deepcopy, lambda a: pickle.loads(pickle.dumps(a))])(alg)
            alg.log_hook.extend(hooks)
            # (the copy has suppliers of its own)
            sim.state["failing"] = True
            return finish(sim, alg, stored, steps, show)
    sim.probe("status-ok")


def finish(sim, alg, stored, steps, show):
    """A copy of the search knows what was known."""
    st = alg.status
    sim.check(alg.step_count == steps, "copied-steps", lambda: f"the copy counts {alg.step_count} steps, not {steps}")
    for k in stored:
        sim.check(show(st[k]) == show(stored[k]), "copied-status", lambda: f"status[{k!r}] of the copy is {st[k]}, expected {stored[k]}")
    sim.probe("status-copied")


# ------------------------------------------------------------------------------------ C21


def close(a, b, dtype):
    tol = 1e-9 if dtype == torch.float64 else 2e-4
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_population(sim, conf, made, alg, key="stale-fitness"):
    pop = alg.population
    sim.check(len(pop) == expected_size(conf), "population-size", lambda: f"{len(pop)} solutions, {expected_size(conf)} configured")
    check_evals(sim, made, pop, key)
    work.mark_batch(sim, pop)
    if conf["bounds"] is not None:
        v = plain(pop.values)
        sim.check(bool((v.abs() <= conf["bounds"]).all()), "bounds", lambda: f"values {v.tolist()} outside of {conf['bounds']}")


def check_stats(sim, conf, made, alg):
    pop = alg.population
    st = alg.status
    ev = plain(pop.evals)
    senses = conf["senses"]
    ks = keys_of(pop)
    single = len(senses) == 1 or "obj_index" in conf["args"]
    for j, s in enumerate(senses):
        if single:
            if j != conf["args"].get("obj_index", 0):
                continue
            pre = ""
        else:
            pre = f"obj{j}_"
        col = ev[:, j]
        best = float(col.min() if s == "min" else col.max())
        for name in ("pop_best", "pop_best_eval", "mean_eval", "median_eval"):
            sim.check(pre + name in st, "status-missing", lambda: f"{pre + name} is not in the status")
        sim.check(float(st[pre + "pop_best_eval"]) == best, "pop-best-eval", lambda: f"{st[pre + 'pop_best_eval']}, best of the population is {best}")
        pb = st[pre + "pop_best"]
        sim.check(row_key(pb.values) in ks, "pop-best", "pop_best is not in the population")
        sim.check(float(plain(pb.evals)[j]) == best, "pop-best", "pop_best is not the best of the population")
        sim.check(close(float(st[pre + "mean_eval"]), float(col.double().mean()), ev.dtype), "mean-eval", lambda: f"{st[pre + 'mean_eval']} vs {float(col.mean())}")
        srt = sorted(col.tolist())
        sim.check(float(st[pre + "median_eval"]) == srt[(len(srt) - 1) // 2], "median-eval", lambda: f"{st[pre + 'median_eval']} vs {srt}")


def c21_coherent(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, max_obj=3, objects=True, seed=ch.chance(0.5))
    na = ch.pick([0, 2, 3, 4])
    made = make_made(conf, num_actors=na, **(splitting(sim, ch, na) if na else {}))
    alg = make_alg(conf, made)
    sim.log(conf["kind"], conf["fit"], na)
    sim.probe("kind-" + conf["kind"])
    steps = ch.rng_int(1, 5)
    cl.arm(2, stall=0.1)
    fail = sim.faults_on and ch.chance(0.4)
    if fail:
        cl.arm(1, stall=0.05, crash_before=0.02, crash_after=0.02, lost_result=0.02)
        arm_user_failures(sim, 1, 0.01)
    kept = []
    for i in range(steps):
        u0, f0 = user_failures(sim), len(cl.faulted)
        try:
            alg.step()
        except OUTAGES as exc:
            if user_failures(sim) == u0 and all(k == "stall" for k, _ in cl.faulted[f0:]):
                raise
            # the population shown after a failed generation is never wrong
            sim.probe("failed-step")
            check_evals(sim, made, alg.population, "stale-after-failure", allow_nan_rows=True)
            sim.check(alg.step_count == i, "failed-step-counted", "a failed step was counted")
            break
        sim.check(
            user_failures(sim) == u0 and all(k == "stall" for k, _ in cl.faulted[f0:]), "failure-hidden", "a failed evaluation was not reported"
        )
        check_population(sim, conf, made, alg)
        check_stats(sim, conf, made, alg)
        if ch.chance(0.3):
            # someone keeps what a step has shown
            kept.append((alg.status["pop_best" if "pop_best" in alg.status else "obj0_pop_best"], None))
            b = kept[-1][0]
            kept[-1] = (b, (row_key(b.values), freeze(b.evals)))
        for b, was in kept:
            sim.check((row_key(b.values), freeze(b.evals)) == was, "kept-best-changed", "a best solution obtained earlier has changed")


# ------------------------------------------------------------------------------------ C22


class Watch:
    """Keeps what every evaluation of the main problem produced."""

    def __init__(self, problem):
        self.calls = []
        problem.after_eval_hook.append(self)

    def __call__(self, batch):
        self.calls.append((keys_of(batch), plain(batch.evals).tolist()))


def dominated(a, b, senses):
    """b dominates a"""
    better = False
    for x, y, s in zip(a, b, senses):
        if s == "max":
            x, y = -x, -y
        if y > x:
            return False
        if y < x:
            better = True
    return better


def fronts(rows, senses):
    left = list(range(len(rows)))
    rank = {}
    r = 0
    while left:
        front = [i for i in left if not any(dominated(rows[i], rows[j], senses) for j in left if j != i)]
        for i in front:
            rank[i] = r
        left = [i for i in left if i not in rank]
        r += 1
    return [rank[i] for i in range(len(rows))]


def c22_elitism(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("GA", "SteadyStateGA", "Cosyne"), max_obj=3, objects=True)
    if conf["kind"] != "Cosyne" and not ch.chance(0.3):
        conf["args"]["elitist"] = True
    na = ch.pick([0, 0, 2, 3])
    made = make_made(conf, num_actors=na)
    cl.arm(2, stall=0.1)
    senses = conf["senses"]
    nobj = len(senses)
    if ch.chance(0.2):
        made.fit.wild = float("inf") if senses[0] == "min" else float("-inf")
    w = Watch(made.problem)
    alg = make_alg(conf, made)
    sim.log(conf["kind"], conf.get("ops"), conf["args"], na, made.fit.wild)
    elitist = conf["args"].get("elitist", True) if conf["kind"] != "Cosyne" else bool(alg_elites(conf) >= 1)
    prev = None
    for i in range(ch.rng_int(1, 5)):
        parents = keys_of(alg.population)
        mark = len(w.calls)
        alg.step()
        calls = w.calls[mark:]
        pop = alg.population
        ks, ev = keys_of(pop), plain(pop.evals).tolist()
        work.mark_batch(sim, pop)
        n = len(ks)
        # the pool the survivors are chosen from
        if conf["kind"] == "Cosyne":
            pool = list(zip(*calls[-1]))
            if prev is not None:
                # the elites take part in the selection
                pk = work.multiset(k for k, _ in pool)
                order = sorted(range(n), key=lambda i: prev[1][i][0], reverse=senses[0] == "max")
                for k in (prev[0][i] for i in order[: alg_elites(conf)]):
                    pk[k] = pk.get(k, 0) - 1
                    sim.check(pk[k] >= 0, "elite-missing", "an elite does not take part in the selection")
        else:
            pool = [r for c in calls for r in zip(*c)]
            if not conf["args"]["re_evaluate"] and i > 0:
                pool = list(zip(*prev)) + pool
            pk = work.multiset(k for k, _ in pool)
            for k, m in work.multiset(parents).items():
                sim.check(pk.get(k, 0) >= m, "parent-missing", "a parent does not take part in the selection")
        if conf["kind"] == "Cosyne" or elitist:
            have = work.multiset((k, tuple(e)) for k, e in pool)
            for k, m in work.multiset((k, tuple(e)) for k, e in zip(ks, ev)).items():
                sim.check(have.get(k, 0) >= m, "invented-survivor", lambda: f"{k} is neither a parent nor an evaluated offspring (often enough)")
            if nobj == 1:
                col = sorted((e[0] for _, e in pool), reverse=senses[0] == "max")[:n]
                mine = sorted((e[0] for e in ev), reverse=senses[0] == "max")
                sim.check(mine == col, "not-the-best", lambda: f"survivors have {mine}, the best of the pool are {col}")
            else:
                fr = fronts([e[:nobj] for _, e in pool], senses)
                order = sorted(fr)
                limit = order[n - 1]
                # everybody in a front before the last one survives, nobody behind it does
                byfit = {}
                for (k, e), f in zip(pool, fr):
                    byfit[(k, tuple(e))] = f
                mine = sorted(byfit[(k, tuple(e))] for k, e in zip(ks, ev))
                sim.check(mine == order[:n], "not-the-best-fronts", lambda: f"survivors come from the fronts {mine}, expected {order[:n]}")
                if limit > 0:
                    sim.probe("partial-later-front")
            sim.probe("survival-checked")
        elif nobj == 1:
            # the children replace the parents; the best parents only fill up
            left = work.multiset(parents)
            col, old = [], []
            for k, e in pool:
                if left.get(k, 0) > 0:
                    left[k] -= 1
                    old.append(e[0])
                else:
                    col.append(e[0])
            rev = senses[0] == "max"
            col, old = sorted(col, reverse=rev)[:n], sorted(old, reverse=rev)
            want = sorted(col + old[: max(0, n - len(col))])
            mine = sorted(e[0] for e in ev)
            sim.check(mine == want, "not-the-children", lambda: f"the population has {mine}, the children (and the best parents) {want}")
            sim.probe("replacement-checked")
        if prev is not None and elitist:
            for j, s in enumerate(senses):
                if nobj > 1:
                    continue
                a, b = [e[j] for e in prev[1]], [e[j] for e in ev]
                ok = min(b) <= min(a) if s == "min" else max(b) >= max(a)
                sim.check(ok, "best-lost", lambda: f"the best of the population went from {sorted(a)} to {sorted(b)}")
                if conf["kind"] == "Cosyne":
                    # every elite is kept
                    m = min(alg_elites(conf), len(a))
                    a, b = (sorted(x, reverse=s == "max")[:m] for x in (a, b))
                    ok = all((y <= x) if s == "min" else (y >= x) for x, y in zip(a, b))
                    sim.check(ok, "elite-lost", lambda: f"the best {m} of the population went from {a} to {b}")
        prev = (ks, ev)


def alg_elites(conf):
    a = conf["args"]
    if "num_elites" in a:
        return a["num_elites"]
    if "elitism_ratio" in a:
        return int(conf["popsize"] * a["elitism_ratio"])
    return 0


# ------------------------------------------------------------------------------------ C23


def cells_of(lb, ub, bins):
    """All combinations of the bins of each feature; the outermost bins have no end."""
    sides = []
    for lo, hi, n in zip(lb, ub, bins):
        edges = [-math.inf] + [lo + (hi - lo) * i / (n - 2) for i in range(n - 1)] + [math.inf]
        sides.append([list(e) for e in zip(edges, edges[1:])])
    return sorted(list(c) for c in itertools.product(*sides))


def c23_archive(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    conf = draw_conf(sim, ("MAPElites",))
    if ch.chance(0.3):
        # cells given by the user: with gaps between them, overlapping, some of them out of reach
        def side():
            lo = ch.pick([-1.0, -3.0, 0.0, 0.5, 2.0, 1e6, float("-inf")])
            return [lo, ch.pick([1.0, 3.0, 0.25, 10.0]) + (lo if math.isfinite(lo) else 0.0)]

        conf["cells"] = [[side() for _ in range(conf["ndata"])] for _ in range(ch.rng_int(2, 6))]
        sim.probe("cells-of-the-user")
    na = ch.pick([0, 0, 2, 3])
    made = make_made(conf, num_actors=na, **(splitting(sim, ch, na) if na else {}))
    cl.arm(2, stall=0.1)
    sense = conf["senses"][0]
    if ch.chance(0.3):
        made.fit.wild = float("inf") if sense == "min" else float("-inf")
    # features which are counted: many are at the very border of a cell
    made.fit.whole = ch.chance(0.4)
    w = Watch(made.problem)
    alg = make_alg(conf, made)
    grid = make_grid(conf)
    sim.log(conf["kind"], conf.get("ops"), conf["args"], conf.get("cells"), na, made.fit.wild)
    if "cells" not in conf:
        want = torch.tensor(cells_of(*conf["grid"]), dtype=torch.float64)
        got = sorted(plain(grid).to(torch.float64).tolist())
        sim.check(
            len(got) == len(want) and torch.allclose(torch.tensor(got, dtype=torch.float64), want, atol=1e-4),
            "grid",
            lambda: f"the cells are {got}, expected {want.tolist()}",
        )
    best = [None] * len(grid)
    was_filled = [False] * len(grid)
    seen = 0
    for i in range(ch.rng_int(1, 5)):
        alg.step()
        for keys, evals in w.calls[seen:]:
            for k, e in zip(keys, evals):
                t = torch.tensor(e, dtype=made.eval_dtype)
                sim.check(same(t, made.expected_row(k)), "stale-fitness", "an evaluated solution carries a foreign result")
                for c in range(len(grid)):
                    if all(bool(grid[c, f, 0] <= t[1 + f] <= grid[c, f, 1]) for f in range(conf["ndata"])):
                        if best[c] is None or (e[0] < best[c] if sense == "min" else e[0] > best[c]):
                            best[c] = e[0]
        seen = len(w.calls)
        pop = alg.population
        work.mark_batch(sim, pop)
        filled = plain(alg.filled).tolist()
        sim.check(len(pop) == len(grid) and len(filled) == len(grid), "archive-size", "the archive does not have one place per cell")
        check_evals(sim, made, pop, "stale-fitness")
        ev = plain(pop.evals)
        for c in range(len(grid)):
            sim.check(filled[c] == (best[c] is not None), "filled-flag", lambda: f"cell {c} is marked {filled[c]}, best solution so far: {best[c]}")
            if not filled[c]:
                sim.probe("empty-cells")
            if filled[c]:
                sim.probe("filled-cells")
                if any(bool(ev[c, 1 + f] == grid[c, f, 1]) for f in range(conf["ndata"])):
                    sim.probe("at-a-border")
                inside = all(bool(grid[c, f, 0] <= ev[c, 1 + f] <= grid[c, f, 1]) for f in range(conf["ndata"]))
                sim.check(inside, "wrong-cell", lambda: f"the solution in cell {c} has features {ev[c, 1:].tolist()}")
                sim.check(float(ev[c, 0]) == best[c], "not-best-of-cell", lambda: f"cell {c} shows {float(ev[c, 0])}, the best seen was {best[c]}")
            sim.check(filled[c] or not was_filled[c], "cell-emptied", f"cell {c} has become empty")
        was_filled = filled
