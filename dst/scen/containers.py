"""Batched tensor containers next to plain Python models: C36."""

import copy
import itertools
import pickle

import torch

from evotorch.tools.structures import CBag, CDict, CList, CMemory

REFUSALS = (IndexError, KeyError, RuntimeError, ValueError, TypeError)


def leftover(sim, make):
    """Make a container in memory which may still hold what somebody else has left there."""
    dirty = sim.faults_on and sim.ch.chance(2 / 3)
    if not dirty:
        seed = None
    else:
        seed = sim.ch.seed()
        sim.fault("leftover_memory")
    original = torch.empty

    def empty(*args, **kw):
        result = original(*args, **kw)
        if seed is None:
            return result.zero_()
        gen = torch.Generator().manual_seed(seed)
        if result.dtype is torch.bool:
            result.copy_(torch.randint(0, 2, result.shape, generator=gen).to(torch.bool))
        else:
            result.copy_(torch.randint(-5, 100, result.shape, generator=gen))
        return result

    torch.empty = empty
    try:
        return make()
    finally:
        torch.empty = original


class Ground:
    """What is common to the kinds of containers: shapes, arguments, refusals."""

    def __init__(self, sim):
        ch = sim.ch
        self.sim = sim
        self.batch = ch.pick([(), (1,), (3,), (4,), (2, 2), (2, 3), (1, 2, 2)])
        self.items = list(itertools.product(*[range(n) for n in self.batch]))
        self.verify = not ch.chance(1 / 5)
        self.size = ()
        self.dtype = torch.float32

    def batch_args(self):
        if self.batch == ():
            return {}
        name = self.sim.ch.pick(["batch_size", "batch_shape"])
        if len(self.batch) == 1 and self.sim.ch.chance(1 / 2):
            return {name: self.batch[0]}
        return {name: self.batch}

    def size_args(self):
        if len(self.size) >= 1 and self.sim.ch.chance(1 / 2):
            return (self.size,)
        return self.size

    def number(self, lo, hi):
        n = self.sim.ch.rng_int(lo, hi)
        if self.dtype is torch.bool:
            return bool(n % 2)
        return float(n) if self.dtype.is_floating_point else n

    def value(self, lo=-9, hi=9, numbers=None):
        """A value argument, and what it means for each batch item."""
        ch = self.sim.ch

        def one():
            if numbers is not None:
                return ch.pick(numbers)
            return self.number(lo, hi)

        def block(shape):
            n = 1
            for k in shape:
                n *= k
            return torch.tensor([one() for _ in range(n)], dtype=self.dtype).reshape(shape)

        form = ch.draw(4)
        if form == 0:
            v = one()
            given = v
            full = torch.full(self.batch + self.size, v, dtype=self.dtype)
        elif form == 1:
            given = block(self.size)
            full = given.expand(self.batch + self.size).clone()
        else:
            given = block(self.batch + self.size)
            full = given.clone()
            if form == 3:
                given = given.tolist()
        return given, full

    def mask(self):
        """A mask argument, and the batch items which it selects."""
        ch = self.sim.ch
        if ch.chance(1 / 2):
            return None, list(self.items)
        chosen = [ch.chance(1 / 2) for _ in self.items]
        t = torch.tensor(chosen, dtype=torch.bool).reshape(self.batch)
        given = t if ch.chance(1 / 2) else t.tolist()
        return given, [i for i, c in zip(self.items, chosen) if c]

    def refused(self, name, call, kinds=REFUSALS):
        """An operation which cannot be carried out must say so."""
        self.sim.fault("impossible_" + name)
        try:
            call()
        except kinds as e:
            self.sim.log("refused", name, type(e).__name__)
            return
        self.sim.check(False, "impossible-accepted", f"{name}: nothing was raised")

    def wrong_mask(self):
        return torch.ones(self.batch + (3,), dtype=torch.bool)

    def wrong_value(self):
        return torch.zeros((7, 7, 7, 7, 7), dtype=self.dtype)

    def spoil(self, given):
        """The user goes on using their own tensors."""
        if isinstance(given, torch.Tensor) and given.ndim > 0:
            if given.dtype is torch.bool:
                given.logical_not_()
            else:
                given.add_(1)

    def settle(self, box):
        """The container may be saved and loaded or copied; the original is then lost."""
        ch = self.sim.ch
        how = ch.draw(8)
        if how == 1 and self.sim.faults_on:
            self.sim.fault("restored_from_pickle")
            new = pickle.loads(pickle.dumps(box))
        elif how == 2:
            new = copy.deepcopy(box)
        else:
            return box
        box.data.zero_()
        return new


def describe(sim, g, box):
    sim.check(tuple(box.batch_shape) == g.batch, "container-shape", f"batch {box.batch_shape} instead of {g.batch}")
    sim.check(box.batch_ndim == len(g.batch), "container-shape", "batch_ndim")
    sim.check(bool(box.is_batched) == (len(g.batch) > 0), "container-shape", "is_batched")
    sim.check(tuple(box.value_shape) == g.size, "container-shape", f"value {box.value_shape} instead of {g.size}")
    sim.check(box.value_ndim == len(g.size), "container-shape", "value_ndim")
    sim.check(box.dtype == g.dtype, "container-shape", f"dtype {box.dtype} instead of {g.dtype}")
    sim.check(str(box.device) == "cpu", "container-shape", "device")


def draw_keys(g, keys, whom):
    """A key argument (keys of the items out of the mask may be anything), and the key of each batch item."""
    ch = g.sim.ch
    if ch.chance(1 / 3) and whom:
        k = ch.pick(keys)
        return (ch.pick([k, torch.tensor(k)])), {i: k for i in g.items}
    chosen = {}
    for i in g.items:
        k = ch.pick(keys)
        if i not in whom and g.verify and ch.chance(1 / 4):
            k = tuple(x + 50 for x in k) if isinstance(k, tuple) else k + 50
            g.sim.probe("masked-impossible-key")
        chosen[i] = k
    multi = isinstance(keys[0], tuple)
    shape = g.batch + ((len(keys[0]),) if multi else ())
    t = torch.tensor([chosen[i] for i in g.items], dtype=torch.int64).reshape(shape)
    return (t if ch.chance(1 / 2) else t.tolist()), chosen


def wrong_key(g, keys, chosen, whom):
    """A key argument with something which is not a key, often only just."""
    ch = g.sim.ch

    def off(k):
        parts = list(k) if isinstance(k, tuple) else [k]
        d = ch.draw(len(parts))
        column = [key[d] if isinstance(key, tuple) else key for key in keys]
        parts[d] = ch.pick([min(column) - 1, max(column) + 1, min(column) - 60, max(column) + 60])
        return tuple(parts) if isinstance(k, tuple) else parts[0]

    if not g.batch or ch.chance(1 / 3):
        return off(ch.pick(keys))
    chosen = dict(chosen)
    i = ch.pick(list(whom))
    chosen[i] = off(chosen[i])
    g.sim.probe("one-wrong-key")
    shape = g.batch + ((len(keys[0]),) if isinstance(keys[0], tuple) else ())
    return torch.tensor([chosen[i] for i in g.items], dtype=torch.int64).reshape(shape)


def at(full, i):
    return full[i] if i != () else full


def arithmetic(g, op, old, new, mod=None):
    if op == "set_":
        return new.clone()
    if g.dtype is torch.bool:
        return (old | new) if op == "add_" else (old & new)
    if op == "add_":
        return old + new
    if op == "subtract_":
        return old - new
    if op == "multiply_":
        return old * new
    if op == "divide_":
        return old / new
    if op == "add_circular_":
        return (old + new) % mod
    raise AssertionError(op)


def change(g, box, ops, keys, model, known):
    """Apply one of the operations that change single cells. `model[item][key]` holds the content."""
    sim = g.sim
    ch = sim.ch
    op = ch.pick(ops)
    where, whom = g.mask()
    key, chosen = draw_keys(g, keys, whom)
    if op == "divide_":
        value, full = g.value(numbers=[1.0, 2.0, 4.0, 0.5])
    elif op == "multiply_":
        value, full = g.value(-2, 2)
    else:
        value, full = g.value()
    args = [key, value]
    mods = None
    if op == "add_circular_":
        mod, mods = g.value(1, 7)
        args.append(mod)
    sim.sched(op, key, value, where)
    if g.verify and sim.faults_on and ch.chance(1 / 8):
        bad = ch.draw(3)
        if bad == 0 and whom:
            k = wrong_key(g, keys, chosen, whom)
            g.refused("key", lambda: getattr(box, op)(k, *args[1:], where=where), (KeyError, IndexError))
        elif bad == 1:
            g.refused("value", lambda: getattr(box, op)(key, g.wrong_value(), *args[2:], where=where))
        else:
            g.refused("mask", lambda: getattr(box, op)(*args, where=g.wrong_mask()))
        return
    if op == "set_" and where is None and ch.chance(1 / 3):
        box[key] = value
    elif where is None and ch.chance(1 / 2):
        getattr(box, op)(*args)
    else:
        getattr(box, op)(*args, where=where)
    for i in whom:
        k = chosen[i]
        if op == "set_" or k in known[i]:
            old = model[i].get(k)
            new = arithmetic(g, op, old, at(full, i), None if mods is None else at(mods, i))
            if not bool(torch.all(new.abs() < 1e6)) if g.dtype is not torch.bool else False:
                # exactness of the arithmetic is not the subject here
                new = torch.zeros(g.size, dtype=g.dtype)
                box.set_(torch.tensor(k), 0, where=torch.tensor([j == i for j in g.items]).reshape(g.batch))
            model[i][k] = new
            known[i].add(k)
    g.spoil(value)
    g.spoil(key)
    g.spoil(where)


def draw_keyspace(g):
    ch = g.sim.ch
    if ch.chance(1 / 2):
        n = ch.rng_int(1, 5)
        off = ch.pick([None, 0, 1, -3, 10])
        keys = [k + (off or 0) for k in range(n)]
        return dict(num_keys=n, key_offset=off), keys
    ns = ch.pick([(2, 2), (1, 3), (2, 1, 2)])
    off = ch.pick([None, 1, -1, tuple(range(3, 3 + len(ns)))])
    offs = [0] * len(ns) if off is None else [off] * len(ns) if isinstance(off, int) else list(off)
    keys = [tuple(k + o for k, o in zip(c, offs)) for c in itertools.product(*[range(n) for n in ns])]
    return dict(num_keys=ns, key_offset=off), keys


def same_cell(a, b):
    return a.shape == b.shape and torch.equal(a, b)


def memory(sim, g):
    ch = sim.ch
    g.size = ch.pick([(), (2,), (2, 1), (1, 2, 2)])
    g.dtype = ch.pick([torch.float32, torch.float64, torch.int64, torch.int32, torch.bool])
    space, keys = draw_keyspace(g)
    fill = ch.pick([None, 0, 1])
    box = leftover(
        sim,
        lambda: CMemory(*g.size_args(), fill_with=fill, dtype=g.dtype, verify=g.verify, **space, **g.batch_args()),
    )
    model = {i: {} for i in g.items}
    known = {i: set() for i in g.items}
    if fill is not None:
        for i in g.items:
            for k in keys:
                model[i][k] = torch.full(g.size, fill, dtype=g.dtype)
                known[i].add(k)
    describe(sim, g, box)
    if g.dtype is torch.bool:
        ops = ["set_", "add_", "multiply_"]
    elif g.dtype.is_floating_point:
        ops = ["set_", "add_", "subtract_", "multiply_", "divide_", "add_circular_"]
    else:
        ops = ["set_", "add_", "subtract_", "multiply_", "add_circular_"]
    for _ in range(ch.rng_int(1, 20)):
        change(g, box, ops, keys, model, known)
        box = g.settle(box)
        for k in keys:
            got = box.get(k) if ch.chance(1 / 2) else box[k]
            for i in g.items:
                if k in known[i]:
                    sim.check(
                        same_cell(at(got, i), model[i][k]),
                        "memory-content",
                        f"item {i} key {k}: {at(got, i)} instead of {model[i][k]}",
                    )
        key, chosen = draw_keys(g, keys, g.items)
        if g.verify and sim.faults_on and ch.chance(1 / 8):
            wrong = wrong_key(g, keys, chosen, g.items)
            g.refused("key", (lambda: box[wrong]) if ch.chance(1 / 2) else (lambda: box.get(wrong)), (KeyError, IndexError))
        got = box[key]
        for i in g.items:
            if chosen[i] in known[i]:
                sim.check(same_cell(at(got, i), model[i][chosen[i]]), "memory-content", f"by keys: item {i}")


def dictionary(sim, g):
    ch = sim.ch
    g.size = ch.pick([(), (2,), (2, 1)])
    g.dtype = ch.pick([torch.float32, torch.int64])
    space, keys = draw_keyspace(g)
    box = leftover(sim, lambda: CDict(*g.size_args(), dtype=g.dtype, verify=g.verify, **space, **g.batch_args()))
    model = {i: {} for i in g.items}
    exists = {i: set() for i in g.items}
    describe(sim, g, box)
    ops = ["set_", "set_", "add_", "subtract_", "multiply_"] + (["divide_"] if g.dtype.is_floating_point else [])

    def look():
        for k in keys:
            there = box.contains(k)
            default, full = g.value(20, 30)
            got = box.get(k, default)
            bare = box[k]
            for i in g.items:
                sim.check(
                    bool(at(there, i)) == (k in exists[i]),
                    "dict-existence",
                    f"item {i} key {k}: contains says {bool(at(there, i))}",
                )
                want = model[i][k] if k in exists[i] else at(full, i)
                sim.check(same_cell(at(got, i), want), "dict-content", f"item {i} key {k}: {at(got, i)}, not {want}")
                if k in exists[i]:
                    sim.check(same_cell(at(bare, i), want), "dict-content", f"item {i} key {k}: {at(bare, i)}")

    look()
    for _ in range(ch.rng_int(1, 20)):
        if g.verify and sim.faults_on and ch.chance(1 / 12):
            wrong = wrong_key(g, keys, draw_keys(g, keys, g.items)[1], g.items)
            call = ch.pick([lambda: box[wrong], lambda: box.get(wrong, 0), lambda: box.get(wrong), lambda: box.contains(wrong)])
            g.refused("key", call, (KeyError, IndexError))
        if ch.chance(1 / 6):
            where, whom = g.mask()
            sim.sched("clear", where)
            if where is None:
                box.clear()
            else:
                box.clear(where)
            for i in whom:
                exists[i].clear()
            sim.probe("dict-cleared")
        else:
            change(g, box, ops, keys, model, exists)
        box = g.settle(box)
        look()


def sequence(sim, g):
    ch = sim.ch
    g.size = ch.pick([(), (2,), (2, 1)])
    g.dtype = ch.pick([torch.float32, torch.int64])
    limit = ch.rng_int(1, 5)
    box = leftover(
        sim, lambda: CList(*g.size_args(), max_length=limit, dtype=g.dtype, verify=g.verify, **g.batch_args())
    )
    model = {i: [] for i in g.items}
    describe(sim, g, box)
    sim.check(box.max_length == limit, "container-shape", "max_length")

    def look():
        n = box.length
        for i in g.items:
            sim.check(
                int(at(n, i)) == len(model[i]), "list-length", f"item {i}: length {int(at(n, i))}, not {len(model[i])}"
            )
        for k in range(-2 * limit - 2, 2 * limit + 3):
            default, full = g.value(20, 30)
            got = box.get(k, default)
            for i in g.items:
                here = -len(model[i]) <= k < len(model[i])
                want = model[i][k] if here else at(full, i)
                sim.check(same_cell(at(got, i), want), "list-content", f"item {i} [{k}]: {at(got, i)}, not {want}")
        shortest = min(len(model[i]) for i in g.items)
        for k in range(-shortest, shortest):
            got = box[k]
            for i in g.items:
                sim.check(same_cell(at(got, i), model[i][k]), "list-content", f"item {i} [{k}] {at(got, i)}")

    look()
    for _ in range(ch.rng_int(1, 30)):
        what = ch.weighted([5, 3, 3, 2, 4, 1, 2])
        where, whom = g.mask()
        if what in (0, 1):
            value, full = g.value()
            name = "appendleft_" if what == 1 else ch.pick(["append_", "push_"])
            sim.sched(name, value, where)
            if any(len(model[i]) == limit for i in whom):
                if g.verify and sim.faults_on:
                    g.refused("push", lambda: getattr(box, name)(value, where=where), IndexError)
                    look()
                continue
            if sim.faults_on and ch.chance(1 / 8):
                g.refused("value", lambda: getattr(box, name)(g.wrong_value(), where=where))
                look()
                continue
            getattr(box, name)(value, where=where)
            for i in whom:
                model[i].insert(0 if what == 1 else len(model[i]), at(full, i).clone())
            g.spoil(value)
            g.spoil(where)
        elif what in (2, 3):
            name = "pop_" if what == 2 else "popleft_"
            sim.sched(name, where)
            if any(len(model[i]) == 0 for i in whom):
                if g.verify and sim.faults_on:
                    g.refused("pop", lambda: getattr(box, name)(where=where), IndexError)
                    look()
                continue
            got = getattr(box, name)(where=where)
            sim.check(got.dtype == g.dtype and tuple(got.shape) == g.batch + g.size, "list-popped", "shape or dtype")
            for i in whom:
                want = model[i].pop(-1 if what == 2 else 0)
                sim.check(same_cell(at(got, i), want), "list-popped", f"item {i}: popped {at(got, i)}, not {want}")
        elif what == 4:
            whom = [i for i in whom if len(model[i]) > 0]
            if not whom:
                continue
            op = ch.pick(["set_", "add_", "subtract_", "multiply_"] + (["divide_"] if g.dtype.is_floating_point else []))
            value, full = g.value(numbers=[1.0, 2.0, 0.5]) if op == "divide_" else g.value(-2, 2)
            chosen = {i: 0 for i in g.items}
            for i in g.items:
                if i in whom:
                    chosen[i] = ch.rng_int(-len(model[i]), len(model[i]) - 1)
                elif g.verify:
                    chosen[i] = ch.rng_int(-8, 8)
            key = torch.tensor([chosen[i] for i in g.items], dtype=torch.int64).reshape(g.batch)
            where = torch.tensor([i in whom for i in g.items]).reshape(g.batch)
            if ch.chance(1 / 2):
                key = key.tolist()
            sim.sched(op, key, value, where)
            if g.verify and sim.faults_on and ch.chance(1 / 8):
                bad = limit + ch.rng_int(0, 3) if ch.chance(1 / 2) else -limit - 1 - ch.rng_int(0, 3)
                g.refused("index", lambda: getattr(box, op)(bad, value, where=where), IndexError)
                look()
                continue
            if len(whom) == len(g.items) and ch.chance(1 / 2):
                if op == "set_":
                    box[key] = value
                else:
                    getattr(box, op)(key, value)
            else:
                getattr(box, op)(key, value, where=where)
            for i in whom:
                model[i][chosen[i]] = arithmetic(g, op, model[i][chosen[i]], at(full, i))
            g.spoil(value)
        elif what == 5:
            sim.sched("clear", where)
            if where is None:
                box.clear()
            else:
                box.clear(where)
            for i in whom:
                model[i].clear()
            sim.probe("list-cleared")
        else:
            if g.verify and sim.faults_on:
                k = limit + ch.rng_int(0, 3) if ch.chance(1 / 2) else -limit - 1 - ch.rng_int(0, 3)
                g.refused("index", lambda: box[k], IndexError)
        box = g.settle(box)
        look()


class Owner:
    def __init__(self, generator):
        self.generator = generator


def bag(sim, g):
    ch = sim.ch
    g.dtype = ch.pick([torch.int64, torch.int32, torch.int16])
    limit = ch.rng_int(1, 6)
    low = ch.pick([None, 0, 1, 2, 5, -3])
    high = limit if low is None else low + ch.rng_int(1, 7)
    seed = ch.seed()
    source = ch.draw(3)
    args = dict(max_length=limit, dtype=g.dtype, verify=g.verify)
    if low is not None:
        args["value_range"] = (low, high)
    low = low or 0
    args.update(g.batch_args())

    def make():
        gen = None if source == 0 else torch.Generator().manual_seed(seed % (2**31))
        return leftover(sim, lambda: CBag(generator=gen if source < 2 else Owner(gen), **args)), gen

    def history(box, gen, plan):
        """Follow the plan with this bag; returns what has been popped."""
        content = {i: [] for i in g.items}
        popped = []
        sampling = False

        def look():
            n = box.length
            for i in g.items:
                sim.check(int(at(n, i)) == len(content[i]), "bag-length", f"item {i}: {int(at(n, i))} {content[i]}")

        describe(sim, g, box)
        look()
        for what, where, whom, value, full in plan:
            if what == "push":
                if sampling and not sim.faults_on:
                    continue
                elif sampling:
                    g.refused("push", lambda: box.push_(value, where=where), RuntimeError)
                elif any(len(content[i]) == limit for i in whom):
                    if g.verify and sim.faults_on:
                        g.refused("push", lambda: box.push_(value, where=where), IndexError)
                else:
                    box.push_(value, where=where)
                    for i in whom:
                        content[i].append(int(at(full, i)))
            elif what == "pop":
                if any(len(content[i]) == 0 for i in whom) or not whom:
                    continue
                got = box.pop_(where=where)
                sampling = True
                sim.check(got.dtype == g.dtype and tuple(got.shape) == g.batch, "bag-popped", "shape or dtype")
                for i in whom:
                    v = int(at(got, i))
                    sim.check(v in content[i], "bag-popped", f"item {i}: popped {v} out of {content[i]}")
                    content[i].remove(v)
                    popped.append(v)
            elif what == "clear":
                box.clear()
                for i in g.items:
                    content[i].clear()
                sampling = False
            elif gen is None:
                box = pickle.loads(pickle.dumps(box))
            look()
        return popped

    plan = []
    for _ in range(ch.rng_int(1, 5)):
        for _ in range(ch.rng_int(0, limit + 1)):
            where, whom = g.mask()
            g.size = ()
            value, full = g.value(low, high - 1)
            plan.append(("push", where, whom, value, full))
        for _ in range(ch.rng_int(0, limit + 1)):
            where, whom = g.mask()
            plan.append(("pop", where, whom, None, None))
            if ch.chance(1 / 6):
                plan.append(("save", None, None, None, None))
        if ch.chance(4 / 5):
            plan.append(("clear", None, None, None, None))
    sim.sched("plan", [(p[0], p[1], p[3]) for p in plan])
    torch.manual_seed(seed % (2**31))
    box, gen = make()
    first = history(box, gen, plan)
    if source == 0:
        torch.manual_seed(seed % (2**31))
    else:
        torch.rand(3)
    box, gen = make()
    second = history(box, gen, plan)
    sim.check(first == second, "bag-reproducible", f"with the same seed: {first} and {second}")
    sim.probe("bag-popped", len(first))

    # a large bag
    n = ch.pick([50, 130, 250])
    box = CBag(max_length=n, dtype=g.dtype, value_range=(low, low + n), **g.batch_args())
    for k in range(n - 3):
        box.push_(low + k)
    got = torch.stack([box.pop_() for _ in range(n - 3)])
    for i in g.items:
        have = sorted(got[(slice(None),) + i].tolist())
        sim.check(have == list(range(low, low + n - 3)), "bag-popped", f"item {i} of a bag of {n}: {have[:9]}")

    # the elements come out in an order which is fresh for each bag
    many = 600
    box = CBag(max_length=4, batch_size=many, value_range=(low, low + 3))
    for k in range(3):
        box.push_(low + k)
    orders = torch.stack([box.pop_(), box.pop_(), box.pop_()], dim=-1)
    counts = {}
    for row in orders.tolist():
        counts[tuple(row)] = counts.get(tuple(row), 0) + 1
    legal = set(itertools.permutations(range(low, low + 3)))
    sim.check(set(counts) <= legal, "bag-popped", f"popped {sorted(set(counts) - legal)[:3]}")
    # six orders: 100 each on average, with a standard deviation of 9.1
    sim.check(all(30 <= counts.get(o, 0) <= 175 for o in legal), "bag-order", f"orders {counts}")


def c36_containers(sim):
    g = Ground(sim)
    kind = sim.ch.weighted([3, 3, 4, 3])
    sim.log("kind", kind, g.batch, g.verify)
    [memory, dictionary, sequence, bag][kind](sim, g)
