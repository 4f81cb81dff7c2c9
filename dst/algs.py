"""Search algorithms under simulation: drawing a configuration, building it, describing it.

A configuration is a plain dictionary, so that the very same search can be built several
times within one simulated run.
"""

import math

import torch

from evotorch import Problem
from evotorch.algorithms import (
    CEM,
    CMAES,
    PGPE,
    SNES,
    XNES,
    Cosyne,
    GeneticAlgorithm,
    MAPElites,
    PyCMAES,
    SteadyStateGA,
)
from evotorch.algorithms.restarter import IPOP
from evotorch.decorators import vectorized
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

from . import work
from .work import Fit, Made, ObjectProblem, SubclassBatch, SubclassSolution, VecFit, plain, row_key

GAUSSIAN = ("PGPE", "SNES", "CEM", "XNES")
CMA = ("CMAES", "PyCMAES")
GENETIC = ("GA", "SteadyStateGA", "Cosyne")
ALL = GAUSSIAN + CMA + GENETIC + ("MAPElites",)


class FnOp:
    """A user-written operator working on plain tensors."""

    def __init__(self, share, lb, ub):
        self.share, self.lb, self.ub = share, lb, ub

    def __call__(self, x):
        y = x[: max(1, math.ceil(len(x) * self.share))].as_subclass(torch.Tensor)
        if self.share > 1:
            y = torch.cat([y, x.as_subclass(torch.Tensor)[: math.ceil(len(x) * (self.share - 1))] * 0.5])
        y = 0.9 * y + 0.2 * torch.sin(5 * y)
        return y.clamp(self.lb, self.ub)


class ListOp:
    """A user-written operator for lists of numbers."""

    def __init__(self, problem):
        self.problem = problem

    def __call__(self, values):
        from evotorch.tools import ObjectArray

        out = ObjectArray(len(values))
        for i in range(len(values)):
            v = [float(t) for t in values[i]]
            d = [float(t) for t in self.problem.make_gaussian(len(v), dtype=torch.float64)]
            out[i] = [a + 0.25 * b for a, b in zip(v, d)]
        return out


class ListProblem(ObjectProblem):
    def __init__(self, fit, **kw):
        super().__init__(fit, shape=0, **kw)


def draw_conf(sim, kinds=ALL, *, max_obj=1, objects=False, seed=True, bounded=None):
    ch = sim.ch
    c = {"kind": ch.pick(kinds)}
    k = c["kind"]
    c["L"] = ch.rng_int(2, 4)
    c["dtype"] = ch.pick([torch.float64, torch.float32])
    c["salt"] = ch.draw(3)
    c["style"] = ch.draw(6)
    c["fit"] = ch.pick(["fn", "vec", "batch", "solution"])
    c["senses"] = ch.pick([["min"], ["max"]])
    c["ndata"] = 0
    c["seed"] = ch.draw(10000) if seed else None
    c["bounds"] = None
    a = c["args"] = {}
    if k in GAUSSIAN:
        c["popsize"] = 2 * ch.rng_int(2, 6)
        if ch.chance(0.5):
            a["stdev_init"] = ch.pick([1.0, 0.5, 2.0])
        else:
            a["radius_init"] = ch.pick([1.5, 3.0])
        if ch.chance(0.3):
            a["center_init"] = [0.5 * i for i in range(c["L"])]
        if k == "PGPE":
            a["center_learning_rate"] = ch.pick([0.3, 0.1])
            a["stdev_learning_rate"] = ch.pick([0.1, 0.4])
            a["symmetric"] = not ch.chance(0.3)
            a["optimizer"] = ch.pick(["clipup", "adam", "sgd", None])
            if a["optimizer"] == "clipup":
                a["optimizer_config"] = ch.pick([{"max_speed": 0.5}, {"momentum": 0.8}])
            elif a["optimizer"] == "sgd":
                a["optimizer_config"] = ch.pick([{}, {"momentum": 0.5}])
            elif a["optimizer"] == "adam":
                a["optimizer_config"] = ch.pick([{}, {"beta1": 0.8, "beta2": 0.95}])
            a["ranking_method"] = ch.pick(["centered", "linear", "nes", "normalized", "raw", None])
            if not a["symmetric"] and ch.chance(0.5):
                c["popsize"] += 1
        elif k == "SNES":
            a["ranking_method"] = ch.pick(["nes", "centered", "linear", "normalized"])
            if ch.chance(0.3):
                a["center_learning_rate"] = 0.5
            if ch.chance(0.3):
                a["stdev_learning_rate"] = 0.7
                a["scale_learning_rate"] = ch.chance(0.5)
            if ch.chance(0.4):
                c["popsize"] += 1
        elif k == "CEM":
            a["parenthood_ratio"] = ch.pick([0.5, 0.6])
            if ch.chance(0.4):
                c["popsize"] += 1
        else:
            a["ranking_method"] = ch.pick(["nes", "centered", "linear", "normalized"])
            if ch.chance(0.3):
                a["center_learning_rate"] = 0.5
            if ch.chance(0.3):
                a["stdev_learning_rate"] = 0.4
                a["scale_learning_rate"] = ch.chance(0.5)
            if ch.chance(0.4):
                c["popsize"] += 1
        if k != "XNES" and ch.chance(0.5):
            lim = ch.draw(4)
            if lim in (0, 2):
                a["stdev_max_change"] = ch.pick([0.2, 0.05, "vector"])
                if a["stdev_max_change"] == "vector":
                    a["stdev_max_change"] = [0.1 * (i + 1) for i in range(c["L"])]
            if lim in (1, 2):
                a["stdev_min"] = ch.pick([0.4, 0.01])
            if lim in (1, 3):
                a["stdev_max"] = ch.pick([2.0, 5.0])
        if max_obj > 1 and ch.chance(0.3):
            c["senses"] = ["min", "max"]
            a["obj_index"] = ch.draw(2)
    elif k in CMA:
        c["popsize"] = ch.rng_int(4, 9)
        a["stdev_init"] = ch.pick([1.0, 0.5])
        a["separable"] = ch.chance(0.4)
        if ch.chance(0.3):
            a["center_init"] = [0.5 * i for i in range(c["L"])]
        if k == "CMAES":
            a["active"] = not ch.chance(0.3)
            a["csa_squared"] = ch.chance(0.3)
            a["limit_C_decomposition"] = not ch.chance(0.3)
            # (limiting a full covariance matrix may leave it without a decomposition)
            if a["separable"] and ch.chance(0.4):
                a["stdev_min"] = ch.pick([0.3, 0.01])
            if a["separable"] and ch.chance(0.4):
                a["stdev_max"] = ch.pick([1.5, 4.0])
        else:
            c["dtype"] = ch.pick([torch.float64, torch.float32])
            if bounded is not False and ch.chance(0.4):
                c["bounds"] = 2.0
            if ch.chance(0.2):
                a["stdev_max"] = 3.0
        if max_obj > 1 and ch.chance(0.3):
            c["senses"] = ["min", "max"]
            a["obj_index"] = ch.draw(2)
    else:
        if bounded is not False and (bounded or ch.chance(0.5)):
            c["bounds"] = ch.pick([2.0, 3.0])
        if k == "Cosyne":
            c["popsize"] = ch.rng_int(8, 14)
            a["tournament_size"] = ch.rng_int(2, 3)
            a["mutation_stdev"] = ch.pick([0.4, None, 4.0])
            if a["mutation_stdev"] is not None and ch.chance(0.5):
                a["mutation_probability"] = 0.6
            a["permute_all"] = ch.chance(0.4)
            e = ch.draw(3)
            if e == 1:
                a["num_elites"] = ch.rng_int(1, 8)
            elif e == 2:
                a["elitism_ratio"] = ch.pick([0.1, 0.3, 0.7, 1.0])
            if ch.chance(0.3):
                a["eta"] = 5.0
            if ch.chance(0.3):
                a["num_children"] = 2 * ch.rng_int(1, 5)
        else:
            c["ops"] = ch.pick(["mut", "cross", "fn", "sbx", "two", "fnfew", "fnmany"])
            c["opt"] = ch.draw(4)
            if c["ops"] == "sbx":
                c["bounds"] = c["bounds"] or 3.0
            c["objects"] = objects and k != "MAPElites" and ch.chance(0.2)
            if c["objects"]:
                c["ops"] = ch.pick(["splice", "listop", "splice+listop"])
                c["bounds"] = None
                c["fit"] = "object"
            crossing = c["ops"] in ("cross", "sbx", "two", "splice", "splice+listop")
            a["re_evaluate"] = not ch.chance(0.5)
            if a["re_evaluate"]:
                pf = ch.draw(3)
                if pf == 1:
                    a["re_evaluate_parents_first"] = True
                elif pf == 2 and not crossing:
                    a["re_evaluate_parents_first"] = False
            if k != "MAPElites":
                c["popsize"] = ch.rng_int(3, 10)
                a["elitist"] = not ch.chance(0.35)
                if max_obj > 1 and ch.chance(0.4):
                    c["senses"] = ch.pick([["min", "max"], ["min", "min"], ["max", "min", "min"]])
                c["ndata"] = ch.draw(3) if ch.chance(0.3) else 0
                c["use"] = k == "SteadyStateGA" and c["ops"] in ("mut", "cross", "sbx", "two", "splice", "listop", "splice+listop") and ch.chance(0.5)
                if c["use"]:
                    a.pop("re_evaluate_parents_first", None)
            else:
                nf = ch.rng_int(1, 2)
                c["ndata"] = nf
                bins = [ch.rng_int(3, 5) for _ in range(nf)]
                c["grid"] = ([-4.0, -20.0][:nf], [12.0, 4.0][:nf], bins)
    c["stats"] = ch.pick([None] * 6 + [True, False])  # whether the problem keeps the best and worst solutions
    return c


def make_made(c, *, num_actors=0, seed="conf", hook=None, **kw):
    nobj, ndata = len(c["senses"]), c["ndata"]
    if seed == "conf":
        seed = c["seed"]
    common = dict(
        objective_sense=c["senses"] if nobj > 1 else c["senses"][0],
        num_actors=num_actors,
        seed=seed,
        **kw,
    )
    if ndata:
        common["eval_data_length"] = ndata
    if c["stats"] is not None:
        common["store_solution_stats"] = c["stats"]
    edt = torch.float64
    if c["fit"] == "object":
        fit = Fit(nobj, ndata, c["salt"], c["style"])
        return Made(ListProblem(fit, eval_dtype=edt, **common), fit, "object", edt)
    edt = c["dtype"]
    common.update(solution_length=c["L"], dtype=c["dtype"])
    if c["bounds"] is not None:
        common["bounds"] = (-c["bounds"], c["bounds"])
    else:
        common["initial_bounds"] = (-3.0, 3.0)
    cls = VecFit if c["fit"] == "vec" else Fit
    fit = cls(nobj, ndata, c["salt"], c["style"])
    if c["fit"] == "fn":
        p = Problem(objective_func=fit, **common)
    elif c["fit"] == "vec":
        p = Problem(objective_func=vectorized(fit), **common)
    elif c["fit"] == "batch":
        p = SubclassBatch(fit, **common)
    else:
        p = SubclassSolution(fit, **common)
    return Made(p, fit, c["fit"], edt)


def operators(c, p):
    lim = c["bounds"] if c["bounds"] is not None else 50.0
    n = c["opt"]
    count = [{}, {"num_children": 4}, {"cross_over_rate": 0.6}, {"cross_over_rate": 1.7}][n]
    mut = GaussianMutation(p, stdev=0.5, **({} if n % 2 else {"mutation_probability": 0.5}))
    k = c["ops"]
    if k == "mut":
        return [mut]
    if k == "cross":
        return [OnePointCrossOver(p, tournament_size=2, **count), mut]
    if k == "two":
        return [TwoPointCrossOver(p, tournament_size=3, **count), FnOp(1.0, -lim, lim)]
    if k == "sbx":
        return [
            SimulatedBinaryCrossOver(p, tournament_size=2, eta=4.0, **count),
            PolynomialMutation(p, **({"mutation_probability": 0.5} if n % 2 else {})),
        ]
    if k == "fn":
        return [FnOp(1.0, -lim, lim), mut]
    if k == "fnfew":
        return [mut, FnOp(0.5, -lim, lim)]
    if k == "fnmany":
        return [FnOp(1.5, -lim, lim), mut]
    ops = []
    if "splice" in k:
        ops.append(CutAndSplice(p, tournament_size=2, **count))
    if "listop" in k:
        ops.append(ListOp(p))
    return ops


def make_alg(c, made, **extra):
    p = made.problem
    a = {**c["args"], **extra}
    k = c["kind"]
    if k in GAUSSIAN:
        cls = {"PGPE": PGPE, "SNES": SNES, "CEM": CEM, "XNES": XNES}[k]
        for n in ("center_init", "stdev_max_change"):
            if isinstance(a.get(n), list):
                a[n] = torch.tensor(a[n], dtype=c["dtype"])
        if "ipop" in c:
            thr, mult = c["ipop"]
            return IPOP(p, cls, dict(a, popsize=c["popsize"]), min_fitness_stdev=thr, popsize_multiplier=mult)
        return cls(p, popsize=c["popsize"], **a)
    if k in CMA:
        if "center_init" in a:
            a["center_init"] = torch.tensor(a["center_init"], dtype=c["dtype"])
        if k == "PyCMAES":
            a = dict(a, cma_options=dict(a.get("cma_options") or {}, verbose=-9))
        return {"CMAES": CMAES, "PyCMAES": PyCMAES}[k](p, popsize=c["popsize"], **a)
    if k == "Cosyne":
        return Cosyne(p, popsize=c["popsize"], **a)
    ops = operators(c, p)
    if k == "MAPElites":
        return MAPElites(p, operators=ops, feature_grid=make_grid(c), **a)
    if k == "SteadyStateGA":
        if c["use"]:
            s = SteadyStateGA(p, popsize=c["popsize"], **a)
            for op in ops[:2]:
                s.use(op)
            return s
        return SteadyStateGA(p, popsize=c["popsize"], operators=ops, **a)
    return GeneticAlgorithm(p, popsize=c["popsize"], operators=ops, **a)


def make_grid(c):
    if "cells" in c:
        return torch.tensor(c["cells"], dtype=c["dtype"])
    lb, ub, bins = c["grid"]
    return MAPElites.make_feature_grid(lb, ub, bins, dtype=c["dtype"])


def expected_size(c):
    if c["kind"] == "MAPElites":
        if "cells" in c:
            return len(c["cells"])
        n = 1
        for b in c["grid"][2]:
            n *= b
        return n
    return c["popsize"]


# --------------------------------------------------------------------------- observations


def freeze(v):
    """A comparable, independent picture of a status value."""
    from evotorch import Solution, SolutionBatch

    if isinstance(v, (Solution, SolutionBatch)):
        vals = row_key(v.values) if isinstance(v, Solution) else tuple(row_key(x) for x in v.values)
        return ("solution", repr(vals), freeze(v.evals))
    if isinstance(v, torch.Tensor):
        t = plain(v)
        return ("tensor", str(t.dtype), tuple(t.shape), tuple(map(repr, t.reshape(-1).tolist())))
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, (int, str, bool, type(None))):
        return v
    return row_key(v)


def snapshot(alg, skip=()):
    """Everything a user sees of a search after a step."""
    st = alg.status
    d = {str(k): freeze(st[k]) for k in st if k not in skip}
    d["step_count"] = alg.step_count
    pop = getattr(alg, "population", None)
    if pop is not None:
        d["population"] = repr([row_key(x) for x in pop.values])
        d["evals"] = freeze(pop.evals)
    return d


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
