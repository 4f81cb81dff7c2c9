"""Variation operators under scheduled random streams: C34."""

import math

import torch

from evotorch import Problem
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

from .. import kernel, work
from ..work import plain, row_key, same
from .search import disturb

ALMOST_ONE = 1.0 - 2.0**-24


class Drawn(Problem):
    """A problem whose random draws can be made to hit the ends of their ranges."""

    loaded = False

    def _load(self, x):
        sim = kernel.current()
        if self.loaded and x.numel() > 0:
            flat = x.view(-1)
            for _ in range(sim.ch.rng_int(1, 4)):
                flat[sim.ch.draw(flat.numel())] = sim.ch.pick([0.0, ALMOST_ONE, 0.5])
            sim.fault("extreme_draw")
        return x

    def make_uniform(self, *args, **kw):
        return self._load(super().make_uniform(*args, **kw))

    def make_uniform_shaped_like(self, *args, **kw):
        return self._load(super().make_uniform_shaped_like(*args, **kw))

    def _fill(self, values):
        if self.dtype is object:
            for i in range(len(values)):
                n = 1 + int(self.make_randint((), n=6))
                # every gene is unique
                values[i] = [float(100 * i + j) for j in range(n)]
        else:
            super()._fill(values)


def within(x, n, p, sigmas=7.0):
    """Whether x is a believable number of successes."""
    return abs(x - n * p) <= sigmas * math.sqrt(n * p * (1 - p)) + 1.0


def children_count(n, num_children, rate):
    """The possible numbers of children."""
    if num_children is not None:
        return {num_children}
    if rate is None:
        return {n + n % 2}
    return {c for c in range(0, 20 * n + 4, 2) if abs(c - n * rate) <= 1.0}


def fronts_of(evals, senses):
    pts = [[(-v if s == "max" else v) for v, s in zip(e, senses)] for e in evals]
    return [i for i, a in enumerate(pts) if not any(all(y <= x for x, y in zip(a, b)) and any(y < x for x, y in zip(a, b)) for b in pts)]


def cuts(child, a, b):
    """In how many places a child switches between the two parents (None: it does not stem from them)."""
    last, n, first = None, 0, None
    for c, x, y in zip(child, a, b):
        if x == y:
            if c != x:
                return None
            continue
        src = 0 if c == x else 1 if c == y else None
        if src is None:
            return None
        if first is None:
            first = src
        elif src != last:
            n += 1
        last = src
    return n


def c34_operators(sim):
    ch = sim.ch
    kind = ch.pick(["one", "two", "multi", "sbx", "gauss", "poly", "cosyne", "splice"])
    large = ch.chance(0.3)
    n, L = (ch.rng_int(15, 25), ch.rng_int(10, 20)) if large else (ch.rng_int(2, 7), ch.rng_int(2, 6))
    senses = ch.pick([["min"], ["max"], ["min", "max"], ["max", "min", "min"]])
    bounded = kind == "poly" or (kind in ("sbx", "gauss") and ch.chance(0.4))
    dtype = object if kind == "splice" else ch.pick([torch.float32, torch.float64])
    bound = None
    how = {}
    if dtype is not object:
        how["solution_length"] = L
        if bounded:
            # each variable has its own range
            bound = torch.tensor([[-1.0 - 0.5 * (i % 3), 0.5 + 0.25 * (i % 4)] for i in range(L)], dtype=dtype)
            if ch.chance(0.2):
                # there is a variable which cannot vary at all
                bound[ch.draw(L), 1] = -1.0
                bound[:, 0] = torch.minimum(bound[:, 0], bound[:, 1])
                bound[bound[:, 1] == -1.0, 0] = -1.0
            how["bounds"] = (bound[:, 0], bound[:, 1])
        else:
            how["initial_bounds"] = (-2.0, 2.0)
    seed = ch.draw(10**6)
    vals = ch.seed()

    def world():
        return Drawn(senses if len(senses) > 1 else senses[0], torch.sum, dtype=dtype, eval_dtype=torch.float32, seed=seed, **how)

    obj_index = None
    common = {}
    crossing = kind in ("one", "two", "multi", "sbx", "splice")
    t = points = None
    if crossing:
        t = ch.pick([1, 2, 3, 60])
        common["tournament_size"] = t
        size = ch.draw(3)
        if size == 1:
            common["num_children"] = 2 * (ch.rng_int(100, 150) if large else ch.rng_int(1, 6))
        elif size == 2:
            common["cross_over_rate"] = ch.pick([1.0, 2.0, 0.5, 1.3])
        if len(senses) > 1 and ch.chance(0.4):
            obj_index = ch.draw(len(senses))
            common["obj_index"] = obj_index if ch.chance(0.5) else obj_index - len(senses)
    prob = stdev = None
    permute_all = False
    if kind == "cosyne":
        permute_all = ch.chance(0.4)
        if not permute_all:
            if len(senses) > 1:
                common["obj_index"] = obj_index = ch.draw(len(senses))
        else:
            common["permute_all"] = True
    elif kind == "gauss":
        stdev = common["stdev"] = ch.pick([0.1, 1.0, 10.0])
        if ch.chance(0.6):
            prob = common["mutation_probability"] = ch.pick([0.3, 0.8, 1.0])
    elif kind == "poly":
        common["eta"] = ch.pick([20.0, 2.0, 100.0])
        if ch.chance(0.6):
            prob = common["mutation_probability"] = ch.pick([0.3, 0.8, 1.0])
    elif kind == "sbx":
        common["eta"] = ch.pick([10.0, 0.5, 30.0])
    elif kind == "multi":
        points = common["num_points"] = ch.rng_int(1, 4)
    elif kind in ("one", "two"):
        points = 1 if kind == "one" else 2

    cls = {
        "one": OnePointCrossOver,
        "two": TwoPointCrossOver,
        "multi": MultiPointCrossOver,
        "sbx": SimulatedBinaryCrossOver,
        "gauss": GaussianMutation,
        "poly": PolynomialMutation,
        "cosyne": CosynePermutation,
        "splice": CutAndSplice,
    }[kind]
    view = ch.draw(3)
    sim.log(kind, n, L, senses, common, dtype, bounded, view)

    def parents_of(p):
        """The batch which is given to the operator, perhaps a part of a larger one."""
        g = torch.Generator()
        g.manual_seed(vals)
        m = n if view == 0 else n + 3
        b = p.generate_batch(m)
        if dtype is not object:
            x = torch.rand((m, L), generator=g, dtype=torch.float64).to(dtype)
            x = bound[:, 0] + x * (bound[:, 1] - bound[:, 0]) if bounded else 4 * x - 2
            if bounded:
                x = torch.max(torch.min(x, bound[:, 1]), bound[:, 0])
                x[0] = bound[:, 0]  # somebody sits in a corner
                x[-1, 0] = bound[0, 1]
            b.set_values(x)
        ev = torch.rand((m, len(senses)), generator=g)
        b.set_evals(ev)
        whole = b
        if view == 1:
            b = b[1 : 1 + n]
        elif view == 2:
            b = b[list(range(n))]
        return whole, b

    def rows(b):
        return [row_key(x) for x in b.values]

    p = world()
    whole, b = parents_of(p)
    op = cls(p, **common)
    twice = ch.rng_int(1, 2)
    p.loaded = sim.faults_on and ch.chance(0.3)
    results = []
    for _ in range(twice):
        before, before_ev = rows(whole), plain(whole.evals).clone()
        mine, mine_ev = rows(b), plain(b.evals).clone()
        kids = op(b)
        sim.check(rows(whole) == before and same(plain(whole.evals), before_ev), "parents-changed", "the operator changed the batch it was given")
        got = rows(kids)
        results.append(got)
        work.mark_batch(sim, kids)
        sim.check(bool(torch.isnan(plain(kids.evals)).all()), "children-evaluated", "the children already show fitnesses")
        check_children(sim, kind, p, mine, mine_ev, got, senses, common, t, points, prob, stdev, bound, obj_index, permute_all, n, L)
        # the children do not share anything with their parents
        if dtype is not object:
            with torch.no_grad():
                kids.access_values()[:] = 0
        else:
            for i in range(len(kids)):
                kids.access_values()[i] = [-1.0]
        sim.check(rows(whole) == before, "children-alias-parents", "writing into the children changed the parents")
        sim.check(same(plain(whole.evals), before_ev), "children-alias-parents", "writing into the children made the parents unevaluated")
        sim.probe("op-" + kind)
        if sim.faults_on:
            disturb(sim)
    if not p.loaded and sim.faults_on:
        # once more with the same seed
        q = world()
        disturb(sim)
        _, b2 = parents_of(q)
        op2 = cls(q, **common)
        for i in range(twice):
            disturb(sim)
            sim.check(rows(op2(b2)) == results[i], "not-reproducible", "the same seed led to other children")


def check_children(sim, kind, p, old, old_ev, got, senses, common, t, points, prob, stdev, bound, obj_index, permute_all, n, L):
    if bound is not None:
        lo, hi = bound[:, 0].tolist(), bound[:, 1].tolist()
        for r in got:
            sim.check(all(a <= v <= b for a, v, b in zip(lo, r, hi)), "out-of-bounds", lambda: f"the child {r} is outside of {lo}..{hi}")
    for r in got:
        sim.check(all(math.isfinite(v) for v in r), "not-finite", lambda: f"the child {r} is not finite")
    if kind in ("gauss", "poly"):
        sim.check(len(got) == n, "count", lambda: f"{len(got)} mutants of {n}")
        changed = sum(a != b for r, o in zip(got, old) for a, b in zip(r, o))
        total = n * L
        if not p.loaded and total >= 150:
            if kind == "gauss" and bound is None:
                pr = 1.0 if prob is None else prob
                ok = within(changed, total, pr)
                sim.check(ok, "mutation-rate", lambda: f"{changed} of {total} variables were mutated with the probability {pr}")
                d = [a - b for r, o in zip(got, old) for a, b in zip(r, o) if a != b]
                if len(d) >= 100:
                    s = math.sqrt(sum(v * v for v in d) / len(d))
                    ok = abs(s / stdev - 1) < 8 / math.sqrt(2 * len(d)) and abs(sum(d) / len(d)) < 7 * stdev / math.sqrt(len(d))
                    sim.check(ok, "mutation-size", lambda: f"the mutations have the size {s}, the configured one is {stdev}")
                    sim.probe("mutation-size-checked")
            elif prob not in (None, 1.0):
                sim.check(changed <= total * prob + 7 * math.sqrt(total * prob * (1 - prob)) + 1, "mutation-rate", lambda: f"{changed} of {total} variables were mutated with the probability {prob}")
            if kind == "poly":
                inner = [(a, b) for r, o in zip(got, old) for a, b in zip(r, o)]
                pr = 1.0 if prob is None else prob
                # (a variable may also stay where it is: at its bound, or if its mutation is too small)
                sim.check(sum(a != b for a, b in inner) >= 0.5 * pr * total - n, "mutation-rate", lambda: f"only {changed} of {total} variables were mutated with the probability {pr}")
                up = sum(a > b for a, b in inner)
                down = sum(a < b for a, b in inner)
                m = up + down
                sim.check(abs(up - down) <= 7 * math.sqrt(m) + 3 * L, "mutation-direction", lambda: f"{up} variables were increased, {down} decreased")
                # the draw behind each mutation, by Deb and Tiwari's formula, is a uniform one
                draws = []
                for r, o in zip(got, old):
                    for a, b, (lo, hi) in zip(r, o, bound.tolist()):
                        if a != b and hi > lo and lo + 0.1 * (hi - lo) < b < hi - 0.1 * (hi - lo):
                            move = (a - b) / (hi - lo)
                            room = (b - lo if move < 0 else hi - b) / (hi - lo)
                            e = common["eta"] + 1
                            edge = (1 - room) ** e
                            u = ((1 - abs(move)) ** e - edge) / (2 * (1 - edge))
                            draws.append(u if move < 0 else 1 - u)
                if len(draws) >= 150:
                    for share in (0.1, 0.25, 0.4, 0.6, 0.75, 0.9):
                        k = sum(u < share for u in draws)
                        sim.check(within(k, len(draws), share), "mutation-size", lambda: f"{k} of {len(draws)} mutations are below the quantile {share}")
                    sim.probe("mutation-quantiles-checked")
        return
    if kind == "cosyne":
        sim.check(len(got) == n, "count", lambda: f"{len(got)} solutions instead of {n}")
        for j in range(L):
            sim.check(sorted(r[j] for r in got) == sorted(r[j] for r in old), "not-a-permutation", lambda: f"variable {j} of the solutions is not a permutation of the previous ones")
        moved = sum(a != b for r, o in zip(got, old) for a, b in zip(r, o))
        if not permute_all and not p.loaded:
            j = obj_index or 0
            ev = old_ev[:, j].tolist()
            best = ev.index(min(ev) if senses[j] == "min" else max(ev))
            sim.check(got[best] == old[best], "best-permuted", "the best solution was permuted")
            worst = ev.index(max(ev) if senses[j] == "min" else min(ev))
            if n * L >= 150:
                m = sum(a != b for a, b in zip(got[worst], old[worst]))
                # its variables are always part of the permutation, together with at least those of somebody else
                sim.check(m >= 1, "worst-stays", "the worst solution was not permuted")
            if n * L >= 150 and n == len(set(ev)):
                # each variable takes part with a probability which falls from 1 (the worst) to 0 (the best)
                m = sum(1 - (r / (n - 1)) ** (1 / L) for r in range(n)) * L
                ok = m - L - 7 * math.sqrt(m + L) <= moved <= m + 7 * math.sqrt(m) + 1
                sim.check(ok, "permutation-rate", lambda: f"{moved} of {n * L} variables moved, about {m} take part")
                sim.probe("permutation-rate-checked")
        if permute_all and n * L >= 150 and not p.loaded:
            sim.check(moved >= n * L * 0.6, "hardly-permuted", lambda: f"only {moved} of {n * L} variables moved")
        return
    want = children_count(n, common.get("num_children"), common.get("cross_over_rate"))
    sim.check(len(got) in want, "count", lambda: f"{len(got)} children, expected one of {sorted(want)}")
    half = len(got) // 2
    # who may be a parent
    if t == 60 and n <= 7:
        if len(senses) > 1 and obj_index is None:
            chosen = fronts_of(old_ev.tolist(), senses)
        else:
            j = obj_index or 0
            ev = old_ev[:, j].tolist()
            top = min(ev) if senses[j] == "min" else max(ev)
            chosen = [i for i, v in enumerate(ev) if v == top]
        sim.probe("tournament-decided")
    else:
        chosen = list(range(n))
    if kind == "sbx":
        contracted = expanded = 0
        betas = []
        # (children which are flung far away are subject to rounding)
        tol = (1e-3 if p.dtype == torch.float32 else 1e-9) * (50 if p.loaded else 1)
        for i in range(half):
            c, d = got[i], got[i + half]
            if bound is not None:
                continue
            mates = None
            for a in chosen:
                for b in chosen:
                    if all(abs((x + y) - (u + v)) <= tol * (1 + max(map(abs, (x, y, u, v)))) for x, y, u, v in zip(c, d, old[a], old[b])):
                        mates = (a, b)
            sim.check(mates is not None, "not-of-its-parents", lambda: f"the children {c} and {d} are not around the middle of two parents")
            if mates[0] != mates[1]:
                for x, y, u, v in zip(c, d, old[mates[0]], old[mates[1]]):
                    if abs(x - y) < abs(u - v):
                        contracted += 1
                    else:
                        expanded += 1
                    if abs(u - v) > 0.05:
                        betas.append(abs(x - y) / abs(u - v))
        m = contracted + expanded
        if len(betas) >= 150 and not p.loaded:
            for share, at in ((0.25, 0.5), (0.75, 2.0)):
                k = sum(v < at ** (1 / (common["eta"] + 1)) for v in betas)
                sim.check(within(k, len(betas), share), "spread", lambda: f"{k} of {len(betas)} children's variables are below the quantile {share} of the spread")
        if m >= 150 and not p.loaded:
            sim.check(within(contracted, m, 0.5), "spread", lambda: f"{contracted} of {m} children's variables are nearer to each other than those of their parents")
            sim.probe("spread-checked")
        return
    if kind == "splice":
        for i in range(half):
            c, d = got[i], got[i + half]
            ok = any(spliced(c, d, old[a], old[b]) for a in chosen for b in chosen)
            sim.check(ok, "not-of-its-parents", lambda: f"{c} and {d} are not spliced from two parents")
        return
    winners = [0] * n
    for i in range(half):
        c, d = got[i], got[i + half]
        found = None
        for a in chosen:
            if old[a][0] not in (c[0], d[0]):
                continue
            for b in chosen:
                if any(sorted(x) != sorted(y) for x, y in zip(zip(c, d), zip(old[a], old[b]))):
                    continue
                k, m = cuts(c, old[a], old[b]), cuts(d, old[b], old[a])
                if k is not None and k == m and k <= points and (kind != "one" and points != 1 or a == b or k == 1):
                    found = (a, b)
        sim.check(found is not None, "not-of-its-parents", lambda: f"{c} and {d} are not recombined from two parents with {points} cuts")
        winners[found[0]] += 1
        winners[found[1]] += 1
    if len(got) >= 200 and t < 60 and not p.loaded and (len(senses) == 1 or obj_index is not None):
        j = obj_index or 0
        ev = old_ev[:, j].tolist()
        order = sorted(range(n), key=lambda i: ev[i], reverse=senses[j] == "min")  # the worst comes first
        for r, i in enumerate(order):
            pr = ((r + 1) / n) ** t - (r / n) ** t
            sim.check(within(winners[i], len(got), pr, 8.0), "selection-pressure", lambda: f"number {n - r} of {n} won {winners[i]} of {len(got)} tournaments of {t}, expected about {pr * len(got)}")
        sim.probe("pressure-checked")


def spliced(c, d, a, b):
    if len(c) + len(d) != len(a) + len(b):
        return False
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if tuple(a[:i]) + tuple(b[j:]) == tuple(c) and tuple(b[:j]) + tuple(a[i:]) == tuple(d):
                return True
    return False


def c34_cuts(sim):
    """Where the parents are cut: many children of few parents."""
    ch = sim.ch
    L, n = ch.rng_int(3, 7), ch.rng_int(3, 6)
    p = Problem("min", lambda x: torch.sum(x, dim=-1), solution_length=L, bounds=(0, 1000), vectorized=True, seed=ch.seed() if ch.chance(0.7) else None)
    kind = ch.pick(["one", "two", "multi"])
    points = {"one": 1, "two": 2}.get(kind) or ch.rng_int(1, 4)
    many = ch.rng_int(400, 700)
    kw = {"tournament_size": ch.rng_int(1, 2)}
    if ch.chance(0.5):
        kw["num_children"] = 2 * many
    else:
        kw["cross_over_rate"] = 2 * many / n
    if kind == "multi":
        kw["num_points"] = points
    op = {"one": OnePointCrossOver, "two": TwoPointCrossOver, "multi": MultiPointCrossOver}[kind](p, **kw)
    batch = p.generate_batch(n)
    batch.set_values(torch.tensor([[100.0 * i + j for j in range(L)] for i in range(n)]))
    p.evaluate(batch)
    disturb(sim)
    got = (plain(op(batch).values) // 100).to(torch.int64)
    half = len(got) // 2
    sim.check(abs(len(got) - 2 * many) <= 2 and bool((got[:half] >= 0).all()), "count", lambda: f"{len(got)} children instead of {2 * many}")
    sim.log(kind, points, L, n, len(got))
    # a row tells whom each variable is of; only pairs of different parents show their cuts
    c, d = got[:half], got[half:]
    mixed = (c != d).all(-1)
    sim.check(bool(((c != d).any(-1) == mixed).all()), "mates", "two children share a variable although their parents differ")
    c = c[mixed]
    m = len(c)
    pr = 1 / (L - 1) if points == 1 else (1 - (1 - 2 / (L + 1)) ** points) / 2
    for j in range(1, L):
        k = int((c[:, j] != c[:, j - 1]).sum())
        sim.check(within(k, m, pr), "cut-places", lambda: f"{k} of {m} pairs of parents were cut before variable {j}, expected about {m * pr}")
    if points == 1:
        k = int(((c[:, 1:] != c[:, :-1]).sum(-1) != 1).sum())
        sim.check(k == 0, "cut-count", lambda: f"{k} of {m} pairs were not cut exactly once")
    sim.probe("cuts-checked", 1)
