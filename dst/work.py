"""Workload toolkit: problems whose every fitness computation is recorded, and oracles."""

import math
import pickle
import zlib

import numpy as np
import torch

import evotorch
from evotorch import Problem, Solution, SolutionBatch
from evotorch.decorators import on_aux_device, on_device, vectorized
from evotorch.tools import ObjectArray

from . import kernel, simray
from .kernel import INJECTED, InjectedError, Violation  # noqa: F401

# ------------------------------------------------------------------- the recorded fitness


def row_key(x):
    """A hashable identity of the decision values of one solution."""
    if isinstance(x, (Solution,)):
        x = x.values
    if isinstance(x, torch.Tensor):
        return tuple(x.reshape(-1).tolist())
    if isinstance(x, np.ndarray):
        return tuple(x.reshape(-1).tolist())
    if isinstance(x, dict) or hasattr(x, "items"):
        return ("dict",) + tuple(sorted((k, row_key(v)) for k, v in x.items()))
    if isinstance(x, str):
        return ("str", x)
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        return tuple(row_key(v) if hasattr(v, "__iter__") else v for v in x)
    return (x,)


def _flat(k):
    for v in k:
        if isinstance(v, tuple):
            yield from _flat(v)
        elif isinstance(v, str):
            yield float(sum(map(ord, v)) % 97)
        else:
            yield float(v)


def pure_fitness(key, j, salt):
    """The j-th result column for the given decision values: a pure function, computed with
    Python floats, hence independent of batching."""
    acc = 0.25 * (j + 1) + 0.5 * salt
    for i, v in enumerate(_flat(key)):
        c = ((i * 7 + j * 3 + salt) % 5) - 1.5
        acc += (v - c) * (v - c) * (1.0 if (i + j) % 2 == 0 else 0.375)
    if j % 2 == 1:
        acc = -acc
    return acc


def record(sim, what, *info):
    sim.ledger.append((what, sim.proc) + info)


def may_fail(message):
    """A point at which the code of the user can be made to fail."""
    sim = kernel.current()
    uf = sim.state.get("user_fail")
    if uf is not None and uf["left"] > 0 and (uf.get("where") is None or uf["where"](sim.proc)):
        if sim.ch.chance(uf["rate"]):
            uf["left"] -= 1
            uf["count"] += 1
            sim.fault("user_error", sim.proc)
            raise sim.ch.pick(INJECTED)(message)


def note_eval(key):
    """Called by every simulated fitness computation."""
    record(kernel.current(), "eval", key)
    may_fail("the fitness function fails")


def arm_user_failures(sim, budget, rate, where=None):
    if sim.faults_on:
        sim.state["user_fail"] = {"left": budget, "rate": rate, "count": 0, "where": where}


def disarm_user_failures(sim):
    uf = sim.state.get("user_fail")
    if uf is not None:
        uf["left"] = 0


def user_failures(sim):
    uf = sim.state.get("user_fail")
    return 0 if uf is None else uf["count"]


class Fit:
    """A picklable fitness function with `nobj` objectives and `ndata` extra columns."""

    def __init__(self, nobj=1, ndata=0, salt=0, style=0):
        self.nobj, self.ndata, self.salt, self.style = nobj, ndata, salt, style
        self.__name__ = "fit"
        self.wild = None  # the fitness of infeasible solutions
        self.whole = False  # whether the evaluation data are whole numbers

    def expected(self, key):
        vals = [pure_fitness(key, j, self.salt) for j in range(self.nobj + self.ndata)]
        if self.wild is not None and int(abs(vals[0]) * 8) % 3 == 0:
            vals[0] = self.wild
        if self.whole:
            vals[self.nobj :] = [float(round(v)) for v in vals[self.nobj :]]
        return vals

    def __call__(self, x):
        key = row_key(x)
        note_eval(key)
        vals = self.expected(key)
        if self.ndata:
            if self.style % 2 == 0:
                return torch.tensor(vals, dtype=torch.float64)
            ev = torch.tensor(vals[: self.nobj], dtype=torch.float64)
            return ev, torch.tensor(vals[self.nobj :], dtype=torch.float64)
        if self.nobj == 1:
            if self.style % 3 == 0:
                return torch.tensor(vals[0], dtype=torch.float64)
            if self.style % 3 == 1:
                return vals[0]
            return torch.tensor([vals[0]], dtype=torch.float64)
        return torch.tensor(vals, dtype=torch.float64)


class VecFit(Fit):
    """The same, for many solutions at once."""

    def __call__(self, xs):
        rows = []
        for i in range(len(xs)):
            key = row_key(xs[i])
            note_eval(key)
            rows.append(self.expected(key))
        edt = torch.float64
        if len(rows) == 0:
            t = torch.empty((0, self.nobj + self.ndata), dtype=edt)
        else:
            t = torch.tensor(rows, dtype=edt)
        if self.ndata:
            if self.style % 2 == 0:
                return t
            return t[:, : self.nobj], t[:, self.nobj :]
        if self.nobj == 1 and self.style % 2 == 0:
            return t[:, 0]
        return t


class SubclassBatch(Problem):
    def __init__(self, fit, **kw):
        super().__init__(**kw)
        self.fit = fit

    def _evaluate_batch(self, batch):
        rows = []
        for x in batch.values:
            key = row_key(x)
            note_eval(key)
            rows.append(self.fit.expected(key))
        t = torch.tensor(rows, dtype=torch.float64).reshape(len(batch), self.fit.nobj + self.fit.ndata)
        batch.set_evals(t)


class SubclassSolution(Problem):
    def __init__(self, fit, **kw):
        super().__init__(**kw)
        self.fit = fit

    def _evaluate(self, solution):
        solution.set_evals(self.fit(solution.values) if self.fit.style % 2 == 0 or not self.fit.ndata else torch.tensor(
            self.fit.expected(_noted(solution)), dtype=torch.float64))


def _noted(solution):
    key = row_key(solution.values)
    note_eval(key)
    return key


class PlacedBatch(SubclassBatch):
    @on_aux_device
    def _evaluate_batch(self, batch):
        super()._evaluate_batch(batch)


class PlacedSolution(SubclassSolution):
    @on_device("cpu")
    def _evaluate(self, solution):
        super()._evaluate(solution)


class ObjectProblem(Problem):
    """Solutions are arbitrary objects of varying length."""

    def __init__(self, fit, shape=0, **kw):
        super().__init__(dtype=object, **kw)
        self.fit = fit
        self.shape_kind = shape

    def _fill(self, values):
        for i in range(len(values)):
            n = int(self.make_randint(1, n=4)) + 1
            v = [float(t) for t in self.make_uniform(n, lb=-4.0, ub=4.0, dtype=torch.float64)]
            kind = (self.shape_kind + i) % 3 if self.shape_kind == 3 else self.shape_kind
            if kind == 0:
                values[i] = v
            elif kind == 1:
                values[i] = {"a": v, "b": [v[0], float(n)]}
            else:
                values[i] = np.array(v)

    def _evaluate(self, solution):
        r = self.fit(solution.values)
        if isinstance(r, tuple):
            solution.set_evals(*r)
        else:
            solution.set_evals(r)


FLOATS = [torch.float32, torch.float64]


class Made:
    """A problem together with the knowledge of its oracle."""

    def __init__(self, problem, fit, kind, eval_dtype):
        self.problem, self.fit, self.kind, self.eval_dtype = problem, fit, kind, eval_dtype

    def expected_row(self, key):
        return torch.tensor(self.fit.expected(key), dtype=torch.float64).to(self.eval_dtype)

    def expected_evals(self, values):
        rows = [self.expected_row(row_key(x)) for x in values]
        if not rows:
            return torch.empty((0, self.fit.nobj + self.fit.ndata), dtype=self.eval_dtype)
        return torch.stack(rows)


SENSES = (["min"], ["max"], ["min", "max"], ["max", "min"], ["min", "min", "max"])

KINDS = ("fn", "vec", "batch", "solution", "object")


def make_problem(sim, *, kinds=KINDS, max_obj=3, max_data=2, num_actors=0, seed=None, ints=True, length=None, **kw):
    """Draw a problem."""
    ch = sim.ch
    kind = ch.pick(kinds)
    senses = ch.pick([s for s in SENSES if len(s) <= max_obj])
    ndata = ch.draw(max_data + 1)
    style = ch.draw(6)
    salt = ch.draw(3)
    L = length if length is not None else ch.rng_int(1, 5)
    edt = ch.pick(FLOATS)
    common = dict(
        objective_sense=(senses[0] if len(senses) == 1 and style % 2 == 0 else senses),
        eval_data_length=(ndata if ndata or style % 2 else None),
        num_actors=num_actors,
        seed=seed,
        **kw,
    )
    if kind == "object":
        fit = Fit(len(senses), ndata, salt, style)
        if "initial_bounds" in common:
            common.pop("initial_bounds")
        p = ObjectProblem(fit, shape=ch.draw(4), eval_dtype=edt, **common)
        return Made(p, fit, kind, edt)
    dt = ch.pick(FLOATS)
    if ints and ch.chance(0.15):
        dt = ch.pick([torch.int64, torch.int32])
    common.setdefault("initial_bounds", (-4, 4) if not dt.is_floating_point else (-4.0, 4.0))
    common.update(solution_length=L, dtype=dt)
    if dt.is_floating_point:
        if ch.chance(0.7):
            edt = dt
        else:
            common["eval_dtype"] = edt
        if edt == dt and ch.chance(0.5):
            common["eval_dtype"] = edt
    else:
        common["eval_dtype"] = edt
    placed = ch.chance(0.2)  # the fitness function asks for a device
    if kind == "fn":
        fit = Fit(len(senses), ndata, salt, style)
        if placed:
            fit = (on_aux_device if style % 2 else on_device("cpu"))(fit)
        p = Problem(objective_func=fit, **common)
    elif kind == "vec":
        fit = VecFit(len(senses), ndata, salt, style)
        if placed:
            fit = (on_aux_device if style % 2 else on_device("cpu"))(fit)
        if style >= 4:
            p = Problem(objective_func=fit, vectorized=True, **common)
        else:
            p = Problem(objective_func=vectorized(fit), **common)
    elif kind == "batch":
        fit = Fit(len(senses), ndata, salt, style)
        p = (PlacedBatch if placed else SubclassBatch)(fit, **common)
    else:
        fit = Fit(len(senses), ndata, salt, style)
        p = (PlacedSolution if placed else SubclassSolution)(fit, **common)
    return Made(p, fit, kind, edt)


def splitting(sim, ch, actors):
    """Draw how the work is cut."""
    k = ch.draw(3)
    if k == 1:
        return {"num_subbatches": ch.rng_int(1, 3 * max(1, actors))}
    if k == 2:
        return {"subbatch_size": ch.rng_int(1, 7)}
    return {}


# ------------------------------------------------------------------------------- oracles


def same(a, b):
    """Exact equality of tensors (NaN equal to NaN)."""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.is_floating_point:
        return bool(torch.all((a == b) | (torch.isnan(a) & torch.isnan(b))))
    return bool(torch.all(a == b))


def plain(t):
    """A plain copy of a (possibly read-only) tensor."""
    return torch.as_tensor(t).as_subclass(torch.Tensor).clone()


def keys_of(batch):
    return [row_key(x) for x in batch.values]


def check_evals(sim, made, batch, key, allow_nan_rows=False):
    """Every row of the batch shows the results of its own decision values."""
    ks = keys_of(batch)
    ev = plain(batch.evals)
    sim.check(ev.dtype == made.eval_dtype, key + "-dtype", lambda: f"evals have dtype {ev.dtype}, not {made.eval_dtype}")
    sim.check(
        tuple(ev.shape) == (len(ks), made.fit.nobj + made.fit.ndata),
        key + "-shape",
        lambda: f"evals have shape {tuple(ev.shape)}",
    )
    n_nan = 0
    for i, k in enumerate(ks):
        exp = made.expected_row(k)
        if allow_nan_rows and bool(torch.isnan(ev[i]).all()):
            n_nan += 1
            continue
        sim.check(
            same(ev[i], exp),
            key,
            lambda: f"solution {i} with values {k} shows {ev[i].tolist()}, its own result is {exp.tolist()}",
        )
    return n_nan


def evaluations_since(sim, mark):
    return [r for r in sim.ledger[mark:] if r[0] == "eval"]


def multiset(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def mark_batch(sim, batch):
    """Note in the event sequence which solutions with which results are there."""
    sim.log("batch", zlib.crc32(repr((keys_of(batch), plain(batch.evals).tolist())).encode()))


def check_once(sim, keys, mark, key, message="evaluated"):
    """Each solution was evaluated exactly once since the mark."""
    got = multiset(r[2] for r in evaluations_since(sim, mark))
    want = multiset(keys)
    sim.check(got == want, key, lambda: f"evaluations made {got}, expected one for each of {want}")


def reload(x):
    """What a fresh process gets from the saved bytes of x."""
    return pickle.loads(pickle.dumps(x))


def fnum(x):
    return float(x)
