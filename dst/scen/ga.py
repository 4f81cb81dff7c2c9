"""What a generation of a population-based search consists of, with a noisy fitness: C35."""

import copy
import math

import torch

from evotorch import Problem
from evotorch.algorithms import Cosyne, GeneticAlgorithm, MAPElites, SteadyStateGA
from evotorch.operators import (
    CopyingOperator,
    CutAndSplice,
    GaussianMutation,
    OnePointCrossOver,
    Operator,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)
from evotorch.tools import ObjectArray

from .. import kernel, work
from ..work import keys_of, multiset, plain, pure_fitness, row_key, splitting
from .evaluation import draw_cluster
from .search import disturb, fronts

# -------------------------------------------------------------------------- a noisy fitness


def measure(key, nobj, ndata, salt):
    """Evaluating the same solution again gives a new result, and no two results are equal."""
    sim = kernel.current()
    log = sim.state.setdefault("measured", [])
    vals = [pure_fitness(key, j, salt) for j in range(nobj + ndata)]
    tick = len(log) + 1
    for j in range(nobj):
        vals[j] += 0.5 * sim.ch.draw(9) + tick * 2.0**-16
    log.append((key, tuple(vals)))
    work.record(sim, "eval", key)
    return vals


class Noisy(Problem):
    def __init__(self, nobj, ndata, salt, single, **kw):
        super().__init__(**kw)
        self.how = (nobj, ndata, salt)
        self.single = single

    def _evaluate_batch(self, batch):
        if self.single:
            return super()._evaluate_batch(batch)
        rows = [measure(row_key(x), *self.how) for x in batch.values]
        batch.set_evals(torch.tensor(rows, dtype=torch.float64).reshape(len(batch), self.how[0] + self.how[1]))

    def _evaluate(self, solution):
        solution.set_evals(torch.tensor(measure(row_key(solution.values), *self.how), dtype=torch.float64))

    def _fill(self, values):
        if self.dtype is object:
            for i in range(len(values)):
                n = 1 + int(self.make_randint((), n=5))
                values[i] = [float(t) for t in self.make_uniform(n, lb=-4.0, ub=4.0, dtype=torch.float64)]
        else:
            super()._fill(values)


# ---------------------------------------------------------------- operators which are watched


def note(name, before, evals, after):
    kernel.current().state.setdefault("applied", []).append((name, before, evals, after))


def rows_of(batch):
    return keys_of(batch), plain(batch.evals).tolist()


def watched(base):
    class Watched(base):
        def _do(self, batch):
            before = rows_of(batch)
            out = super()._do(batch)
            note(self.name, *before, keys_of(batch if out is None else out))
            return out

        def __reduce_ex__(self, protocol):
            return _rebuild, (base, {k: v for k, v in self.__dict__.items()})

    Watched.__name__ = "Watched" + base.__name__
    return Watched


def _rebuild(base, state):
    op = object.__new__(WATCHED[base])
    op.__dict__.update(state)
    return op


class Shift(Operator):
    """A user-written operator which works in place."""

    def _do(self, batch):
        v = batch.access_values()
        if isinstance(v, ObjectArray):
            for i in range(len(v)):
                v[i] = [float(t) + 0.125 for t in v[i]]
        else:
            v[:] = plain(v) * 0.75 + 0.125


class Thin(CopyingOperator):
    """A user-written operator which makes a different number of solutions."""

    def _do(self, batch):
        return batch[: max(1, len(batch) // 2)].clone()


WATCHED = {b: watched(b) for b in (Shift, Thin, CutAndSplice, GaussianMutation, OnePointCrossOver, SimulatedBinaryCrossOver, TwoPointCrossOver)}


def make_op(name, base, problem, **kw):
    op = WATCHED[base](problem, **kw)
    op.name = name
    return op


class Func:
    """A user-written operator which is just a function of the decision values."""

    def __init__(self, name, share):
        self.name, self.share = name, share

    def __call__(self, values):
        before = [row_key(x) for x in values]
        n = max(1, int(len(values) * self.share))
        if isinstance(values, ObjectArray):
            out = ObjectArray(n)
            for i in range(n):
                out[i] = [float(t) * 0.5 + i for t in values[i % len(values)]]
        else:
            x = values.as_subclass(torch.Tensor)
            out = 0.5 * x[torch.arange(n) % len(x)] + 0.25 * torch.arange(n, dtype=x.dtype)[:, None]
        note(self.name, before, None, [row_key(x) for x in out])
        return out


def draw_ops(sim, problem, objects, bounded, limit):
    ch = sim.ch
    ops, crossing = [], False
    for i in range(ch.rng_int(1, limit)):
        name = f"op{i}"
        if objects:
            k = ch.pick(["func", "shift", "thin", "splice", "funcfew", "funcmany"])
        else:
            k = ch.pick(["func", "gauss", "one", "two", "shift", "thin", "funcfew", "funcmany"] + (["sbx"] if bounded else []))
        if k == "thin" and crossing:
            k = "shift"
        if k in ("one", "two", "sbx", "splice"):
            # (cross-over needs results to compare, which only the parents have)
            if i > 0:
                k = "shift"
            else:
                crossing = True
        kw = {}
        if k in ("one", "two", "sbx", "splice"):
            kw["tournament_size"] = ch.rng_int(1, 3)
            c = ch.draw(3)
            if c == 1:
                kw["num_children"] = 2 * ch.rng_int(1, 6)
            elif c == 2:
                kw["cross_over_rate"] = ch.pick([0.7, 1.6])
        if k == "func":
            op = Func(name, 1.0)
        elif k == "funcfew":
            op = Func(name, 0.6)
        elif k == "funcmany":
            op = Func(name, 1.7)
        elif k == "gauss":
            op = make_op(name, GaussianMutation, problem, stdev=0.5)
        elif k == "one":
            op = make_op(name, OnePointCrossOver, problem, **kw)
        elif k == "two":
            op = make_op(name, TwoPointCrossOver, problem, **kw)
        elif k == "sbx":
            op = make_op(name, SimulatedBinaryCrossOver, problem, eta=4.0, **kw)
        elif k == "splice":
            op = make_op(name, CutAndSplice, problem, **kw)
        elif k == "thin":
            op = make_op(name, Thin, problem)
        else:
            op = make_op(name, Shift, problem)
        ops.append(op)
    return ops, crossing


# -------------------------------------------------------------------------------------- C35


def c35_generations(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    kind = ch.pick(["GA", "SteadyStateGA", "MAPElites", "Cosyne"])
    objects = kind in ("GA", "SteadyStateGA") and ch.chance(0.2)
    senses = ch.pick([["min"], ["max"]] + ([["min", "max"], ["max", "max"]] if kind in ("GA", "SteadyStateGA") else []))
    nobj = len(senses)
    ndata = ch.rng_int(1, 2) if kind == "MAPElites" else ch.pick([0, 0, 1])
    bounded = not objects and ch.chance(0.4)
    na = ch.pick([0, 0, 2, 3])
    how = dict(objective_sense=senses if nobj > 1 else senses[0], num_actors=na, eval_dtype=torch.float64, seed=ch.draw(10**5))
    if ndata:
        how["eval_data_length"] = ndata
    if objects:
        how["dtype"] = object
    else:
        how.update(solution_length=ch.rng_int(2, 4), dtype=torch.float64)
        how.update({"bounds": (-3.0, 3.0)} if bounded else {"initial_bounds": (-3.0, 3.0)})
    if na:
        how.update(splitting(sim, ch, na))
    p = Noisy(nobj, ndata, ch.draw(3), ch.chance(0.4), **how)
    cl.arm(2, stall=0.1)
    if kind == "Cosyne":
        return cosyne(sim, p, senses[0])
    use = kind == "SteadyStateGA" and ch.chance(0.5)
    ops, crossing = draw_ops(sim, p, objects, bounded, 1 if use else 3)
    args = {"re_evaluate": ch.chance(0.5)}
    first = None  # whether the parents are evaluated before the operators see them
    if args["re_evaluate"]:
        pf = 0 if use else ch.draw(3)
        if pf == 1:
            args["re_evaluate_parents_first"] = True
        elif pf == 2 and not crossing:
            args["re_evaluate_parents_first"] = False
        first = args.get("re_evaluate_parents_first", crossing or use)
    if kind == "MAPElites":
        bins = ch.rng_int(2, 4)
        grid = MAPElites.make_feature_grid([-4.0, -20.0][:ndata], [30.0, 4.0][:ndata], bins, dtype=torch.float64)
        n = len(grid)
        alg = MAPElites(p, operators=ops, feature_grid=grid, **args)
    else:
        n = ch.rng_int(2, 9)
        args["elitist"] = ch.chance(0.5)
        if not use:
            alg = (GeneticAlgorithm if kind == "GA" else SteadyStateGA)(p, popsize=n, operators=ops, **args)
        else:
            alg = SteadyStateGA(p, popsize=n, **args)
            if ch.chance(0.6):
                # the mutation can be named before the cross-over
                if crossing:
                    ops = ops + [make_op("mutation", Shift, p)]
                elif not objects:
                    ops = [make_op("cross", OnePointCrossOver, p, tournament_size=2)] + ops
            for op in reversed(ops) if ch.chance(0.5) else ops:
                alg.use(op)
    names = [op.name for op in ops]
    sim.log(kind, [(type(op).__name__, op.name) for op in ops], args, na, senses)
    applied = sim.state.setdefault("applied", [])
    measured = sim.state.setdefault("measured", [])
    for step in range(ch.rng_int(1, 5)):
        if sim.faults_on:
            disturb(sim)
        if step and ch.chance(0.15):
            alg = work.reload(alg) if ch.chance(0.5) else copy.deepcopy(alg)
            p = alg.problem
            sim.probe("went-on-with-a-copy")
        pk, pe = rows_of(alg.population)
        am, mm = len(applied), len(measured)
        alg.step()
        calls, evals = applied[am:], measured[mm:]
        pop = alg.population
        ks, ev = rows_of(pop)
        work.mark_batch(sim, pop)
        # the operators
        sim.check([c[0] for c in calls] == names, "operators-applied", lambda: f"the operators {names} were applied as {[c[0] for c in calls]}")
        at = pk
        for name, before, _, after in calls:
            sim.check(before == at, "operator-input", lambda: f"{name} was given {before} instead of {at}")
            at = after
        children = at
        # the evaluations
        again = args["re_evaluate"] or step == 0
        want = multiset(children + (pk if again else []))
        got = multiset(k for k, _ in evals)
        sim.check(got == want, "evaluated", lambda: f"evaluations made: {got}, expected: {want}")
        if step and not args["re_evaluate"]:
            sim.probe("parents-not-evaluated-again")
        if calls[0][2] is not None and (first or (not args["re_evaluate"])):
            # the first operator sees the parents with their current results
            shown = [tuple(e) for e in calls[0][2]]
            if again:
                mine = set(evals)
                ok = all((k, e) in mine for k, e in zip(pk, shown))
            else:
                ok = shown == [tuple(e) for e in pe]
            sim.check(ok, "operator-sees-stale-results", lambda: f"the first operator saw the parents with {shown}")
            sim.probe("operator-saw-results")
        # the survivors
        fresh = list(evals)
        if again:
            pool = fresh
        else:
            pool = [(k, tuple(e)) for k, e in zip(pk, pe)] + fresh
        have = set(pool)
        mine = [(k, tuple(e)) for k, e in zip(ks, ev)]
        sim.check(len(mine) == n, "population-size", lambda: f"the population has {len(mine)} solutions instead of {n}")
        for m in mine:
            sim.check(m in have, "survivor-result", lambda: f"{m} is not a result of this generation (of {sorted(have)})")
        if kind == "MAPElites":
            for c in range(n):
                inside = [e for k, e in pool if all(float(grid[c, f, 0]) <= e[1 + f] <= float(grid[c, f, 1]) for f in range(ndata))]
                sim.check(bool(alg.filled[c]) == bool(inside), "filled-flag", lambda: f"cell {c} is marked {bool(alg.filled[c])}, {len(inside)} solutions belong there")
                if inside:
                    b = (min if senses[0] == "min" else max)(e[0] for e in inside)
                    sim.check(ev[c][0] == b, "not-best-of-cell", lambda: f"cell {c} shows {ev[c][0]}, the best of this generation is {b}")
                    sim.probe("cell-checked")
            continue
        sim.check(len(set(mine)) == n, "survivor-twice", "one evaluated solution survives more than once")
        if args["elitist"]:
            chosen, wanted = mine, pool
        else:
            shared = set(children) & set(pk)
            if shared:
                sim.probe("child-equals-parent")
                continue
            kids = [r for r in pool if r[0] in set(children)]
            olds = [r for r in pool if r[0] in set(pk)]
            if len(kids) <= n:
                sim.check(set(kids) <= set(mine), "child-missing", lambda: f"children {set(kids) - set(mine)} are not in the next population")
                chosen, wanted = [r for r in mine if r not in set(kids)], olds
            else:
                chosen, wanted = mine, kids
            sim.probe("children-replace")
        m = len(chosen)
        if m and nobj == 1:
            best = sorted((e[0] for _, e in wanted), reverse=senses[0] == "max")[:m]
            sim.check(sorted((e[0] for _, e in chosen), reverse=senses[0] == "max") == best, "not-the-best", lambda: f"chosen: {chosen}, best: {best}")
        elif m:
            rank = dict(zip(wanted, fronts([list(e[:nobj]) for _, e in wanted], senses)))
            sim.check(sorted(rank[r] for r in chosen) == sorted(rank.values())[:m], "not-the-best-fronts", "the survivors do not come from the best fronts")
            last = sorted(rank.values())[m - 1]
            crowd = [r for r in wanted if rank[r] == last]
            took = [r for r in chosen if rank[r] == last]
            if len(took) < len(crowd):
                # within the last front, the least crowded go first
                gap = dict(zip(crowd, crowding([e[:nobj] for _, e in crowd])))
                least = min(gap[r] for r in took)
                most = max(gap[r] for r in crowd if r not in took)
                sim.check(least >= most or math.isclose(least, most, rel_tol=1e-9), "crowded-survivor", lambda: f"a survivor has the distance {least}, a dropped one {most}")
                sim.probe("crowded-front")
        if nobj > 1:
            check_fronts(sim, pop, senses)


def crowding(points):
    """The crowding distances within a front."""
    d = [0.0] * len(points)
    for j in range(len(points[0])):
        order = sorted(range(len(points)), key=lambda i: points[i][j])
        span = max(points[order[-1]][j] - points[order[0]][j], 1e-8)
        for a, i, b in zip(order, order[1:], order[2:]):
            d[i] += (points[b][j] - points[a][j]) / span
        d[order[0]] = d[order[-1]] = math.inf
    return d


def check_fronts(sim, pop, senses):
    """The fronts a batch tells about."""
    nobj = len(senses)
    ev = [e[:nobj] for e in plain(pop.evals).tolist()]
    want = fronts(ev, senses)
    info = pop.arg_pareto_sort(crowdsort=True)
    got = [f.tolist() for f in info.fronts]
    sim.check(
        [sorted(f) for f in got] == [[i for i in range(len(ev)) if want[i] == r] for r in range(max(want) + 1)] and info.ranks.tolist() == want,
        "fronts",
        lambda: f"fronts {got}, ranks {info.ranks.tolist()}, expected {want}",
    )
    ranks, inner = pop.compute_pareto_ranks(crowdsort=True)
    sim.check(ranks.tolist() == want, "front-ranks", lambda: f"ranks {ranks.tolist()}, expected {want}")
    for f in got:
        gap = crowding([ev[i] for i in f])
        sim.check(all(a >= b or math.isclose(a, b, rel_tol=1e-9) for a, b in zip(gap, gap[1:])), "front-order", lambda: f"the distances within a front are {gap}")
        by = sorted(f, key=lambda i: int(inner[i]))
        gap = crowding([ev[i] for i in by])
        ok = all(a >= b or math.isclose(a, b, rel_tol=1e-9) for a, b in zip(gap, gap[1:]))
        sim.check(ok and sorted(int(inner[i]) for i in f) == list(range(len(f))), "crowding-ranks", lambda: f"the crowding ranks {[int(inner[i]) for i in by]} do not follow the distances {gap}")


def cosyne(sim, p, sense):
    ch = sim.ch
    n = ch.rng_int(8, 14)
    args = {"tournament_size": ch.rng_int(2, 3), "permute_all": ch.chance(0.5), "mutation_stdev": ch.pick([None, 0.5])}
    if args["mutation_stdev"] is not None and ch.chance(0.5):
        args["mutation_probability"] = 0.5
    if ch.chance(0.3):
        args["eta"] = 5.0
    kids = 2 * (n // 4)
    if ch.chance(0.5):
        kids = args["num_children"] = 2 * ch.rng_int(1, 5)
    elites = 0
    e = ch.draw(3)
    if e == 1:
        elites = args["num_elites"] = ch.rng_int(1, n)
    elif e == 2:
        args["elitism_ratio"] = ch.pick([0.25, 0.5, 1.0])
        elites = int(n * args["elitism_ratio"])
    alg = Cosyne(p, popsize=n, **args)
    sim.log("Cosyne", n, args)
    measured = sim.state.setdefault("measured", [])
    for step in range(ch.rng_int(1, 4)):
        if sim.faults_on:
            disturb(sim)
        if step and ch.chance(0.15):
            alg = work.reload(alg) if ch.chance(0.5) else copy.deepcopy(alg)
        pk, pe = rows_of(alg.population)
        mark = len(measured)
        alg.step()
        evals = measured[mark:]
        if step == 0:
            # the first population
            sim.check(multiset(k for k, _ in evals[:n]) == multiset(pk), "evaluated", "the first population was not evaluated before all others")
            pe = [dict(evals[:n])[k] for k in pk]
            evals = evals[n:]
        sim.check(len(evals) == elites + kids + n, "evaluated-count", lambda: f"{len(evals)} evaluations for {elites} elites, {kids} children, {n} permuted solutions")
        # each column of the permuted population holds the values of that column
        left = [multiset(k[i] for k, _ in evals) for i in range(len(pk[0]))]
        for i, m in enumerate(left):
            for v, c in multiset(k[i] for k in pk).items():
                sim.check(m.get(v, 0) >= c, "value-lost", lambda: f"{v} of variable {i} is not in the next pool")
                m[v] -= c
        order = sorted(range(n), key=lambda i: pe[i][0], reverse=sense == "max")
        pool = multiset(k for k, _ in evals)
        for i in order[:elites]:
            pool[pk[i]] = pool.get(pk[i], 0) - 1
            sim.check(pool[pk[i]] >= 0, "elite-missing", "an elite is not in the next pool")
            for j, v in enumerate(pk[i]):
                left[j][v] = left[j].get(v, 0) - 1
                sim.check(left[j][v] >= 0, "elite-or-value-lost", "an elite or a permuted value is not in the next pool")
        # what remains are the children
        rest = [[v for v, c in m.items() for _ in range(c)] for m in left]
        for j, vs in enumerate(rest):
            sim.check(len(vs) == kids, "children-count", lambda: f"{len(vs)} values of children for variable {j}, expected {kids}")
            sources = {pk[i][j] for i in order[: n // 4]}
            new = [v for v in vs if v not in sources]
            if args["mutation_stdev"] is None and "eta" not in args:
                sim.check(not new, "foreign-values", lambda: f"children have {new}, which no parent has")
                sim.probe("children-from-the-best")
            elif "mutation_probability" not in args and args["mutation_stdev"] is not None and p.lower_bounds is None:
                sim.check(len(new) == len(vs), "unmutated", "a child kept a value of a parent although everything is mutated")
        pop = alg.population
        work.mark_batch(sim, pop)
        ks, ev = rows_of(pop)
        mine = [(k, tuple(e)) for k, e in zip(ks, ev)]
        best = sorted((e[0] for _, e in evals), reverse=sense == "max")[:n]
        sim.check(sorted((e[0] for _, e in mine), reverse=sense == "max") == best and set(mine) <= set(evals), "not-the-best", lambda: f"{mine} are not the best of {evals}")
        sim.probe("cosyne-checked")
