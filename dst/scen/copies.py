"""Populations and problems that are copied, cut and shared: C14 C31."""

import copy
import pickle

import numpy as np
import torch

from evotorch import Problem, Solution, SolutionBatch
from evotorch.neuroevolution import NEProblem, SupervisedNE

from .. import kernel, work
from ..kernel import InjectedError
from ..work import Fit, arm_user_failures, disarm_user_failures, make_problem, plain, row_key, same, splitting
from .evaluation import OUTAGES, draw_cluster, records_of

# ------------------------------------------------------------------------------------ C31

NAN = float("nan")


class Cell:
    """One solution of the reference model."""

    __slots__ = ("key", "evals")

    def __init__(self, key, evals):
        self.key, self.evals = key, evals


def fresh(cells):
    return [Cell(c.key, c.evals.clone()) for c in cells]


def fronts_of(points, senses):
    """The front of each point: those which nothing dominates come first, and so on."""
    signs = [1 if s == "max" else -1 for s in senses]
    pts = [[g * x for g, x in zip(signs, row)] for row in points]

    def beats(a, b):
        return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))

    left = set(range(len(pts)))
    front, r = [None] * len(pts), 0
    while left:
        now = {i for i in left if not any(beats(pts[j], pts[i]) for j in left)}
        for i in now:
            front[i] = r
        left -= now
        r += 1
    return front


def c31_histories(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 0, 0, 2])
    made = make_problem(sim, num_actors=na, seed=ch.draw(1000), **(splitting(sim, ch, na) if na else {}))
    p, obj = made.problem, made.kind == "object"
    nobj, width = made.fit.nobj, made.fit.nobj + made.fit.ndata
    if na:
        cl.arm(2, stall=0.1)
    handles = []  # (object, cells)

    def add(o, cells):
        handles.append((o, cells))
        if len(handles) > 7:
            handles.pop(ch.draw(4))

    def blank(n):
        return [torch.full((width,), NAN, dtype=made.eval_dtype) for _ in range(n)]

    def new():
        n = ch.rng_int(1, 6)
        b = p.generate_batch(n)
        add(b, [Cell(row_key(x), e) for x, e in zip(b.values, blank(n))])

    def some_value():
        L = p.solution_length if not obj else None
        if obj:
            return ch.pick([[1.5, -2.0], [ch.draw(9) * 0.5], {"a": [1.0, ch.draw(5) * 1.0]}, np.array([2.0, 3.0])])
        t = torch.tensor([ch.draw(9) - 4 + (0.5 if p.dtype.is_floating_point else 0) for _ in range(L)])
        return t.to(p.dtype)

    def rows_for(n):
        vs = [some_value() for _ in range(n)]
        if obj:
            return vs, [row_key(v) for v in vs]
        return torch.stack(vs), [row_key(v) for v in vs]

    def look():
        for o, cells in handles:
            b = o.to_batch() if isinstance(o, Solution) else o
            sim.check(len(b) == len(cells), "length", lambda: f"{len(b)} solutions, expected {len(cells)}")
            got = [row_key(x) for x in b.values]
            sim.check(got == [c.key for c in cells], "values", lambda: f"values are {got}, expected {[c.key for c in cells]}")
            ev = plain(b.evals)
            for i, c in enumerate(cells):
                sim.check(same(ev[i], c.evals), "evals", lambda: f"solution {i} ({got[i]}) shows {ev[i].tolist()}, expected {c.evals.tolist()}")
            if isinstance(o, Solution):
                want = not bool(torch.isnan(cells[0].evals[:nobj]).any())
                sim.check(o.is_evaluated == want, "is-evaluated", lambda: f"is_evaluated is {o.is_evaluated}")
                sim.check(row_key(o.values) == cells[0].key, "values", "the values of a solution differ from its batch")
                e1 = plain(o.evaluation).reshape(-1)
                sim.check(same(e1, cells[0].evals), "evals", "the evaluation of a solution differs from its evals")

    def crowd():
        # more solutions, the better ones of which do not dominate each other
        m, extra = ch.rng_int(8, 24), ch.rng_int(1, 6)
        rows = [(float(i), float(m - i)) for i in range(m)] + [(m + 1.0 + ch.draw(3), m + 1.0 + ch.draw(3)) for _ in range(extra)]
        rows = ch.shuffle(rows)
        signs = [-1.0 if s == "max" else 1.0 for s in p.senses]
        wide = p.generate_batch(m + extra)
        evals = torch.zeros((m + extra, width), dtype=made.eval_dtype)
        evals[:, :2] = torch.tensor([[r[0] * signs[0], r[1] * signs[1]] for r in rows], dtype=made.eval_dtype)
        wide.set_evals(evals[:, :2], evals[:, 2:]) if width > 2 else wide.set_evals(evals)
        k = ch.rng_int(1, m + extra)
        got = [abs(float(e[0])) for e in plain(wide.take_best(k).evals)]
        late = [x for x in got if x > m]
        sim.check(len(got) == k and len(late) == max(0, k - m), "take-best-fronts", lambda: f"take_best({k}) took {len(late)} solutions of later fronts, the first front has {m}")

    new()
    look()
    if nobj == 2 and ch.chance(0.3):
        crowd()
    for _ in range(ch.rng_int(3, 14)):
        o, cells = handles[ch.draw(len(handles))]
        n = len(cells)
        single = isinstance(o, Solution)
        b = o.to_batch() if single else o
        op = ch.pick(
            ["new", "slice", "solution", "pick", "split", "cat", "copy", "set_values", "access", "keep", "forget", "set_evals", "evaluate", "readonly", "range", "evaluate", "order", "like", "write-evals", "utility", "bell", "refused", "facts"]
        )
        sim.log(op, n, single)
        sim.probe("op-" + op)
        if op == "new":
            new()
        elif op == "slice" and n >= 1:
            a = ch.draw(n)
            z = ch.rng_int(a + 1, n)
            st = 1 if obj else ch.pick([1, 1, 2])
            add(b[a:z:st] if ch.chance(0.8) else b[slice(a - n, z, st)], cells[a:z:st])
        elif op == "solution":
            i = ch.draw(n)
            add(b[i - n if ch.chance(0.3) else i], [cells[i]])
        elif op == "pick":
            idx = [ch.draw(n) for _ in range(ch.rng_int(1, n))]
            k = ch.draw(4)
            if k == 0:
                r = b[idx]
            elif k == 1:
                r = b.take(idx)
            elif k == 2:
                r = b[torch.tensor(idx)]
            else:
                mask = [i in idx for i in range(n)]
                idx = [i for i in range(n) if mask[i]]
                r = b[torch.tensor(mask)]
            add(r, fresh([cells[i] for i in idx]))
        elif op == "split":
            k = ch.rng_int(1, n)
            pieces = b.split(k) if ch.chance(0.5) else b.split(max_size=k)
            at = 0
            for j, (piece, (x, y)) in enumerate(pieces.iter_with_indices()):
                sim.check(x == at and y - x == len(piece) and pieces.indices_of(j) == (x, y), "split", "wrong piece indices")
                at = y
            sim.check(at == n, "split", "the pieces do not cover the batch")
            j = ch.draw(len(pieces))
            x, y = pieces.indices_of(j)
            add(pieces[j], cells[x:y])
        elif op == "cat":
            o2, cells2 = handles[ch.draw(len(handles))]
            b2 = o2.to_batch() if isinstance(o2, Solution) else o2
            k = ch.draw(4)
            if k == 3:
                r = b.concat([b2, b])
                add(r, fresh(cells + cells2 + cells))
            else:
                r = b.concat(b2) if k == 0 else b.concat([b2]) if k == 1 else SolutionBatch.cat([b, b2])
                add(r, fresh(cells + cells2))
        elif op == "copy":
            k = ch.draw(4)
            c = o.clone() if k == 0 else copy.deepcopy(o) if k == 1 else pickle.loads(pickle.dumps(o)) if k == 2 else copy.copy(o)
            sim.check(type(c) is type(o), "copy-type", lambda: f"the copy is a {type(c)}")
            add(c, fresh(cells))
        elif op == "set_values":
            if single:
                v = some_value()
                o.set_values(v)
                if isinstance(v, np.ndarray):
                    v = v.copy()
                cells[0].key = row_key(v)
                cells[0].evals = blank(1)[0]
            else:
                k = ch.draw(3)
                if k == 0:
                    which, arg = list(range(n)), None
                elif k == 1:
                    which = ch.sample(list(range(n)), ch.rng_int(1, n))
                    arg = which
                else:
                    a = ch.draw(n)
                    which, arg = list(range(a, n)), slice(a, n)
                vs, ks = rows_for(len(which))
                b.set_values(vs) if arg is None else b.set_values(vs, solutions=arg)
                for i, kk in zip(which, ks):
                    cells[i].key, cells[i].evals = kk, blank(1)[0]
        elif op == "like":
            m = ch.rng_int(1, 5)
            if ch.chance(0.3):
                r = SolutionBatch(p, popsize=m, like=b)
                ks = [row_key(x) for x in r.values]
            else:
                r = SolutionBatch(p, popsize=m, like=b, empty=True)
                vs, ks = rows_for(m)
                r.set_values(vs)
            add(r, [Cell(kk, e) for kk, e in zip(ks, blank(m))])
        elif op in ("access", "keep") and single and not obj and ch.chance(0.5):
            if op == "keep":
                data = o.access_values(keep_evals=True)
            else:
                data = o.access_values()
                cells[0].evals = blank(1)[0]
            if ch.chance(0.7):
                v = some_value()
                data[:] = v
                cells[0].key = row_key(v)
        elif op == "write-evals":
            i, j, v = ch.draw(n), ch.draw(width), ch.draw(9) * 0.5
            if single and ch.chance(0.5):
                o.access_evals()[j] = v
            elif j < nobj and ch.chance(0.5):
                b.access_evals(j)[i] = v
            else:
                b.access_evals()[i, j] = v
            cells[i].evals = cells[i].evals.clone()
            cells[i].evals[j] = v
        elif op in ("access", "keep"):
            keep = op == "keep"
            data = b.access_values(keep_evals=True) if keep else b.access_values()
            if not keep:
                for c in cells:
                    c.evals = blank(1)[0]
            if ch.chance(0.7):
                i = ch.draw(n)
                v = some_value()
                data[i] = v
                cells[i].key = row_key(v)
        elif op == "forget":
            if single or ch.chance(0.5):
                b.forget_evals()
                which = range(n)
            else:
                which = ch.sample(list(range(n)), ch.rng_int(1, n))
                arg = which
                if ch.chance(0.3):
                    arg = slice(which[0], None)
                    which = range(which[0], n)
                elif ch.chance(0.4):
                    arg = torch.tensor(which)
                b.forget_evals(solutions=arg)
            for i in which:
                cells[i].evals = blank(1)[0]
        elif op == "set_evals":
            which = list(range(n)) if single or ch.chance(0.5) else ch.sample(list(range(n)), ch.rng_int(1, n))
            full = ch.chance(0.5)
            t = torch.tensor([[ch.draw(40) * 0.25 for _ in range(width)] for _ in which], dtype=made.eval_dtype)
            rows = t.clone()
            if not full:
                rows[:, nobj:] = NAN
            kw = {} if len(which) == n and ch.chance(0.7) and which == list(range(n)) else {"solutions": which}
            if kw and which == list(range(which[0], which[0] + len(which))) and ch.chance(0.5):
                kw = {"solutions": slice(which[0], which[0] + len(which))}
            elif kw and ch.chance(0.3):
                kw = {"solutions": torch.tensor(which)}
            if single:
                if full and width > nobj and ch.chance(0.5):
                    o.set_evals(t[0, :nobj], t[0, nobj:])
                else:
                    o.set_evaluation(t[0, : width if full else nobj])
            elif full and width > nobj and ch.chance(0.5):
                b.set_evals(t[:, :nobj], t[:, nobj:], **kw)
            elif nobj == 1 and not full and ch.chance(0.5):
                b.set_evals(t[:, 0], **kw)
            else:
                b.set_evals(t if full else t[:, :nobj], **kw)
            for i, r in zip(which, rows):
                cells[i].evals = r
        elif op == "evaluate":
            if sim.faults_on and ch.chance(0.3):
                arm_user_failures(sim, 1, 0.4)
            failed = False
            try:
                p.evaluate(o)
            except OUTAGES as e:
                if work.user_failures(sim) == 0:
                    raise
                failed = True
                sim.probe("failed-evaluation")
            disarm_user_failures(sim)
            sim.state.pop("user_fail", None)
            ev = plain(b.evals)
            for i, c in enumerate(cells):
                right = made.expected_row(c.key)
                if failed and not same(ev[i], right):
                    sim.check(same(ev[i], c.evals), "failed-evals", lambda: f"after a failed evaluation solution {i} shows {ev[i].tolist()}, before {c.evals.tolist()}, right is {right.tolist()}")
                else:
                    c.evals = right
            if not failed:
                sim.probe("evaluated")
        elif op == "order" and not any(bool(torch.isnan(c.evals[:nobj]).any()) for c in cells):
            j = ch.draw(nobj)
            col = [float(c.evals[j]) for c in cells]
            down = p.senses[j] == "max"
            want = sorted(col, reverse=down)
            got = [col[int(i)] for i in b.argsort(j)]
            sim.check(got == want, "argsort", lambda: f"argsort({j}) orders {got}")
            sim.check(col[int(b.argbest(j))] == want[0] and col[int(b.argworst(j))] == want[-1], "argbest", "argbest/argworst are wrong")
            k = ch.rng_int(1, n)
            r = b.take_best(k, obj_index=j)
            got = [float(x) for x in plain(r.evals)[:, j]]
            sim.check(got == want[:k], "take-best", lambda: f"take_best({k}) took {got} of {col}")
            kept = [row_key(x) for x in r.values]
            pool = [(c.key, float(c.evals[j])) for c in cells]
            sim.check(all((a, e) in pool for a, e in zip(kept, got)), "take-best", "take_best mixed solutions up")
            add(r, [Cell(kk, plain(r.evals)[i]) for i, kk in enumerate(kept)])
            if nobj > 1:
                # no solution is left behind for one of a later front
                front = fronts_of([c.evals[:nobj].tolist() for c in cells], p.senses)
                got = plain(b.compute_pareto_ranks(crowdsort=False)[0]).tolist()
                sim.check(got == front, "pareto-ranks", lambda: f"the fronts are {got}, expected {front}")
                sizes = [front.count(i) for i in range(max(front) + 1)]
                sorting = [sorted(int(i) for i in f) for f in b.arg_pareto_sort(crowdsort=ch.chance(0.5)).fronts]
                want = [[i for i in range(n) if front[i] == r] for r in range(len(sizes))]
                sim.check(sorting == want, "pareto-sort", lambda: f"arg_pareto_sort gives {sorting}, expected {want}")
                best = b.take_best(k)
                of = {}
                for c, r in zip(cells, front):
                    of.setdefault((c.key, tuple(map(repr, c.evals.tolist()))), r)
                try:
                    got = [of[(row_key(x), tuple(map(repr, e.tolist())))] for x, e in zip(best.values, plain(best.evals))]
                except KeyError:
                    sim.check(False, "take-best", "take_best mixed solutions up")
                want = sorted(front)[:k]
                sim.check(sorted(got) == want, "take-best-fronts", lambda: f"take_best({k}) took solutions of the fronts {got} out of {sorted(front)}")
                sim.probe("fronts")
        elif op == "utility":
            # the higher the better, whatever the sense
            j = ch.draw(nobj)
            sign = 1.0 if p.senses[j] == "max" else -1.0
            col = [float(c.evals[j]) * sign for c in cells]
            there = not any(x != x for x in col)
            alone = nobj == 1 and ch.chance(0.5)
            kw = {} if ch.chance(0.5) else {"check_nans": False}
            if not obj and p.dtype.is_floating_point and ch.chance(0.5):
                kw["using_values_dtype"] = True
            want_dtype = p.dtype if "using_values_dtype" in kw else made.eval_dtype
            try:
                u = b.utility(**kw) if alone else b.utility(j, **kw)
                sim.check(there or "check_nans" in kw, "utility-of-unevaluated", "an unevaluated solution has got a utility")
                sim.check(
                    u.dtype == want_dtype and same(u.to(torch.float64), torch.tensor(col, dtype=torch.float64).to(want_dtype).to(torch.float64)),
                    "utility",
                    lambda: f"utility({j}) is {u.tolist()} ({u.dtype}), expected {col} ({want_dtype})",
                )
            except ValueError:
                sim.check(not there and "check_nans" not in kw, "utility-refused", "the utilities of evaluated solutions were refused")
            if not any(bool(torch.isnan(c.evals[:nobj]).any()) for c in cells):
                us = b.utils() if ch.chance(0.5) else b.utility() if nobj > 1 else b.utility().reshape(-1, 1)
                signs = torch.tensor([1.0 if x == "max" else -1.0 for x in p.senses], dtype=made.eval_dtype)
                sim.check(same(us, torch.stack([c.evals[:nobj] for c in cells]) * signs), "utils", lambda: f"utils() is {us.tolist()}")
                if len(set(col)) == n and n > 1:
                    method = ch.pick(["centered", "linear", "nes", "normalized", "raw"])
                    u = b.utility(j, ranking_method=method)
                    order = sorted(range(n), key=lambda i: col[i])
                    ranked = sorted(range(n), key=lambda i: (float(u[i]), col[i]))
                    sim.check(order == ranked, "ranking", lambda: f"{method} ranks of {col} (higher is better) are {u.tolist()}")
                    u2 = b.utils(ranking_method=method)[:, j]
                    sim.check(same(u2, u), "ranking", lambda: f"utils() ranks objective {j} as {u2.tolist()}, utility() as {u.tolist()}")
                    if method == "centered":
                        want = [order.index(i) / (n - 1) - 0.5 for i in range(n)]
                        sim.check(all(abs(float(x) - y) < 1e-5 for x, y in zip(u, want)), "centered", lambda: f"centered ranks of {col} are {u.tolist()}")
        elif op == "bell" and not obj and p.dtype.is_floating_point:
            m = ch.rng_int(1, 4) * 2
            L = p.solution_length
            c0 = [ch.draw(9) - 4.0 for _ in range(L)]
            s0 = [0.25 * (1 + ch.draw(4)) for _ in range(L)]
            sym = ch.chance(0.5)
            one = ch.chance(0.3)
            if one:
                c0, s0 = [c0[0]] * L, [s0[0]] * L
            r = p.generate_batch(m, center=c0[0] if one else c0, stdev=s0[0] if one else s0, symmetric=sym)
            off = (plain(r.values).to(torch.float64) - torch.tensor(c0, dtype=torch.float64)) / torch.tensor(s0, dtype=torch.float64)
            sim.check(len(r) == m and bool((off.abs() < 8).all()), "bell", lambda: f"values {r.values.tolist()} around {c0}, deviation {s0}")
            sim.check(bool((off.abs() > 1e-7).any()), "bell", "every value is the center itself")
            if sym:
                sim.check(bool(((off[0::2] + off[1::2]).abs() < 1e-4).all()), "symmetric", lambda: f"offsets {off.tolist()} are not pairs of opposites")
            elif m * L >= 6:
                sim.check(not bool(((off[0::2] + off[1::2]).abs() < 1e-4).all()), "symmetric", "pairs of opposites were not asked for")
            add(r, [Cell(row_key(x), e) for x, e in zip(r.values, blank(m))])
        elif op == "refused":
            # what does not fit is refused and changes nothing
            t = torch.zeros((n, width), dtype=made.eval_dtype)
            tries = [
                lambda: b.set_evals(torch.zeros((n, width + 1), dtype=made.eval_dtype)),
                lambda: b.set_evals(torch.zeros((n + 1, nobj), dtype=made.eval_dtype)),
                lambda: b.set_evals(t[None]),
                lambda: b.set_evals(t[:, :nobj], torch.zeros((n, width - nobj + 1), dtype=made.eval_dtype)),
                lambda: b.set_evals(t[:, :nobj], torch.zeros((n + 1, width - nobj), dtype=made.eval_dtype)),
                lambda: b.set_evals(t[:, :nobj], torch.zeros(n, dtype=made.eval_dtype)),
                lambda: b.split(2, max_size=2),
                lambda: b.split(),
                lambda: b.take(0),
                lambda: SolutionBatch.cat([b, 3]),
                lambda: p.generate_batch(2, center=1.0),
                lambda: p.generate_batch(2, stdev=1.0),
                lambda: p.generate_batch(2, symmetric=True),
            ]
            if nobj > 1:
                tries.append(lambda: b.set_evals(torch.zeros(n, dtype=made.eval_dtype)))
                tries.append(lambda: b.argbest())
                tries.append(lambda: b.argsort())
            if width > nobj:
                tries.append(lambda: b.set_evals(t, t[:, nobj:]))
            if single:
                tries.append(lambda: o.set_evals(torch.zeros((1, nobj))))
                tries.append(lambda: o.set_evals([0.0] * nobj, torch.zeros((1, width - nobj))))
            k = ch.draw(len(tries))
            try:
                tries[k]()
                sim.check(False, "not-refused", f"attempt {k} was accepted")
            except (ValueError, TypeError):
                pass
        elif op == "facts":
            L = None if obj else p.solution_length
            sim.check(b.values_shape == (torch.Size([n]) if obj else torch.Size([n, L])), "shape", lambda: f"values_shape is {b.values_shape}")
            sim.check(b.eval_shape == torch.Size([n, width]), "shape", lambda: f"eval_shape is {b.eval_shape}")
            sim.check(b.solution_length == L, "shape", lambda: f"solution_length is {b.solution_length}")
            sim.check(b.dtype == b.values_dtype == (object if obj else p.dtype), "dtype", lambda: f"dtype is {b.dtype}")
            sim.check(b.eval_dtype == made.eval_dtype, "dtype", lambda: f"eval_dtype is {b.eval_dtype}")
            sim.check(list(b.senses) == list(p.senses), "senses", lambda: f"senses are {b.senses}")
            sim.check(b.objective_sense == p.objective_sense, "senses", lambda: f"objective_sense is {b.objective_sense}")
            sim.check([row_key(x.values) for x in b] == [c.key for c in cells], "iteration", "iterating gives other solutions")
            if not obj:
                sim.check(b.to("cpu") is b, "to", "to() the device where the batch already is made another one")
            s1 = o if single else b[0]
            sim.check(s1.objective_sense() == p.objective_sense and list(s1.senses) == list(p.senses), "senses", "senses of a solution")
            sim.check(s1.dtype == b.dtype and s1.eval_dtype == b.eval_dtype, "dtype", "dtypes of a solution")
            if not obj:
                sim.check(s1.shape == s1.size() == torch.Size([L]) and len(s1) == L and s1.ndim == s1.dim() == 1, "shape", "shape of a solution")
                sim.check(s1.eval_shape == torch.Size([width]), "shape", lambda: f"eval_shape of a solution is {s1.eval_shape}")
                vals = [float(x) for x in cells[0].key] if isinstance(cells[0].key, (tuple, list)) else None
                if vals is not None and len(vals) == L:
                    sim.check([float(x) for x in s1] == vals and float(s1[0]) == vals[0], "iteration", "iterating over a solution")
        elif op == "readonly":
            v, e = o.values, o.evals
            attempts = [lambda: e.add_(1.0), lambda: e.__setitem__(0, 7.0), lambda: e.__imul__(2.0), lambda: e.zero_(), lambda: torch.add(plain(e), 1.0, out=e)]
            if not obj:
                attempts += [lambda: v.__setitem__(0, 1), lambda: v.__iadd__(1), lambda: v.numpy().__setitem__(0, 3), lambda: v.fill_(0), lambda: v[..., :1].zero_()]
                if v.is_contiguous():  # otherwise reshaping makes a copy
                    attempts.append(lambda: v.reshape(-1).__setitem__(0, 1))
            elif not single:
                attempts += [lambda: v.__setitem__(0, [5.0]), lambda: v[0:1].__setitem__(0, [5.0])]
            if obj:
                x = v if single else v[0]
                attempts.append(lambda: x.__setitem__("a" if hasattr(x, "items") else 0, 9.0))
            k = ch.draw(len(attempts))
            try:
                attempts[k]()
                worked = True
            except (TypeError, AttributeError, ValueError, RuntimeError):
                worked = False
            sim.check(not worked, "read-only", lambda: f"read-only data could be modified (attempt {k} of {len(attempts)})")
        elif op == "range":
            i = ch.pick([n, n + 1, -n - 1])
            try:
                b[i]
                worked = True
            except IndexError:
                worked = False
            j = ch.pick([nobj, nobj + 1, -nobj - 1])
            try:
                ch.pick([b.access_evals, lambda j: b.utility(j, check_nans=False), b.argbest])(j)
                sim.check(False, "objective-index", f"objective {j} of {nobj} objectives was accepted")
            except IndexError:
                pass
            sim.check(not worked, "index", lambda: f"a batch of {n} solutions has given a solution for index {i}")
        look()


# ------------------------------------------------------------------------------------ C14


class Tally:
    """A stateful after-evaluation hook."""

    def __init__(self):
        self.n = 0

    def __call__(self, batch):
        self.n += len(batch)
        return {"tally": self.n}


class Stateful(Problem):
    """Each worker has a state which has to survive saving and restoring."""

    def __init__(self, fit, **kw):
        super().__init__(kw.pop("senses", "min"), solution_length=3, initial_bounds=(-3.0, 3.0), dtype=torch.float64, **kw)
        self.fit = fit
        self.memory = []
        self.notes = {"list": [1, 2], "cell": torch.zeros(2)}

    def remember(self, x=None):
        if x is not None:
            self.memory.append((self.actor_index, x))
        return tuple(self.memory)

    def _make_pickle_data_for_main(self):
        return {"memory": self.memory}

    def _use_pickle_data_from_main(self, state):
        self.memory = list(state.get("memory", ()))

    def _evaluate_batch(self, batch):
        rows = []
        for x in batch.values:
            k = row_key(x)
            work.note_eval(k)
            rows.append(self.fit.expected(k))
        batch.set_evals(torch.tensor(rows, dtype=torch.float64).reshape(len(batch), self.fit.nobj))


class Net(NEProblem):
    def __init__(self, fit, **kw):
        super().__init__("min", "Linear(2, 2) >> Tanh() >> Linear(2, 1)", initial_bounds=(-2.0, 2.0), **kw)
        self.fit = fit

    def _evaluate_network(self, net):
        k = row_key(torch.nn.utils.parameters_to_vector(net.parameters()))
        work.note_eval(k)
        return torch.tensor(self.fit.expected(k)[0], dtype=torch.float64)


def status_picture(p):
    d = {}
    for k, v in p.status.items():
        if isinstance(v, Solution):
            v = (row_key(v.values), tuple(plain(v.evals).tolist()))
        elif isinstance(v, torch.Tensor):
            v = tuple(plain(v).reshape(-1).tolist())
        d[k] = repr(v)
    return d


class Life:
    """A problem in the scenario with all that happened to it."""

    def __init__(self, p, ops):
        self.p, self.ops = p, ops


def c14_copies(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 0, 2, 3])
    seed = ch.pick([None, 7, 7, 123])
    kind = ch.pick(["any", "stateful", "net"])
    cut = splitting(sim, ch, na) if na else {}
    if kind == "any":
        made = make_problem(sim, num_actors=na, seed=seed, **cut)
    else:
        fit = Fit(1, 0, ch.draw(3))
        cls = Stateful if kind == "stateful" else Net
        p = cls(fit, num_actors=na, seed=seed, **cut)
        made = work.Made(p, fit, kind, torch.float64 if kind == "stateful" else torch.float32)
    p = made.problem
    if ch.chance(0.6):
        p.after_eval_hook.append(Tally())
    if na:
        cl.arm(3, stall=0.1)
    sim.log(kind, na, seed)
    expected = {}  # operations -> what they have produced
    lives = [Life(p, ())]

    def do(life, op):
        p = life.p
        before = [(o, status_picture(o.p)) for o in lives if o is not life]
        name, arg = op
        out = ()
        sim.log(name, arg, lives.index(life))
        if name == "generate":
            if seed is not None:
                out = tuple(row_key(x) for x in p.generate_values(arg)) if made.kind == "object" else tuple(map(row_key, p.generate_batch(arg).values))
            else:
                p.generate_batch(arg)
        elif name == "sample":
            t = p.make_gaussian(arg, dtype=torch.float64), p.make_uniform(arg, lb=0.0, ub=1.0, dtype=torch.float64)
            out = tuple(map(row_key, t)) if seed is not None else ()
        elif name == "evaluate":
            b = p.generate_batch(arg)
            mark = len(sim.ledger)
            p.evaluate(b)
            work.check_evals(sim, made, b, "wrong-result")
            work.check_once(sim, [row_key(x) for x in b.values], mark, "not-exactly-once")
            out = tuple(map(row_key, b.values)) if seed is not None else ()
        elif name == "kill":
            if p.actors is None:
                # a copy whose workers are still to be restored goes its own way when they are dropped
                op = ("solo", len(sim.ledger), len(expected))
            p.kill_actors()
        elif name == "remember":
            if na:
                r = p.all_remote_problems().remember(arg)
                out = tuple(map(tuple, r))
            else:
                out = p.remember(arg)
        life.ops = life.ops + (op,)
        full = (out, status_picture(p) if seed is not None else None)
        if life.ops in expected:
            sim.probe("compared")
            sim.check(
                expected[life.ops] == full,
                "copy-differs",
                lambda: f"after {life.ops} one copy yields {full}, another one {expected[life.ops]}",
            )
        else:
            expected[life.ops] = full
        for o, pic in before:
            sim.check(status_picture(o.p) == pic, "not-independent", lambda: f"{op} on one copy changed the status of another one")

    def draw_op():
        names = ["generate", "sample", "evaluate", "evaluate"]
        if kind == "stateful":
            names += ["remember", "remember"]
        if na:
            names.append("kill")
        return ch.pick(names), ch.rng_int(1, 5)

    started = False
    for _ in range(ch.rng_int(2, 9)):
        life = lives[ch.draw(len(lives))]
        k = ch.draw(3)
        if k == 0:
            do(life, draw_op())
        elif k == 1:
            how = ch.draw(4)
            sim.log("copy", how, lives.index(life))
            pic = status_picture(life.p)
            if how == 0:
                c = life.p.clone()
            elif how == 1:
                c = copy.deepcopy(life.p)
            elif how == 2:
                c = pickle.loads(pickle.dumps(life.p))
            else:
                c = copy.copy(life.p)
            sim.probe("copied" + ("-with-workers" if life.p.actors is not None else ""))
            sim.check(status_picture(life.p) == pic, "copying-changes-original", "copying changed the status of the original")
            sim.check(status_picture(c) == pic, "copy-status", lambda: f"the status of the copy is {status_picture(c)}, of the original {pic}")
            if kind == "stateful":
                sim.check(c.notes["list"] is not life.p.notes["list"], "shared-attribute", "the copy shares a mutable attribute")
                life.p.notes["list"].append(5)
                life.p.notes["cell"] += 1
                sim.check(len(c.notes["list"]) == len(life.p.notes["list"]) - 1, "shared-attribute", "the copy shares a mutable attribute")
                sim.check(float(c.notes["cell"][0]) == float(life.p.notes["cell"][0]) - 1, "shared-attribute", "the copy shares a tensor")
            new = Life(c, life.ops)
            if sim.faults_on and ch.chance(0.3):
                # the process with the original dies; the copy is what is left
                life.p.kill_actors()
                lives[lives.index(life)] = new
                sim.fault("process_crash")
            else:
                lives.append(new)
                op = draw_op()  # both do the same thing next
                first, second = (life, new) if ch.chance(0.5) else (new, life)
                do(first, op)
                if ch.chance(0.3):
                    do(lives[ch.draw(len(lives))], draw_op())
                if second.ops == first.ops[:-1]:
                    do(second, op)
        else:
            op = draw_op()
            for o in lives:
                do(o, op)
