"""Object arrays, immutable containers and read-only tensors: C38."""

import copy
import pickle
from collections import OrderedDict
from collections.abc import Mapping, Set

import numpy as np
import torch

from evotorch import Problem
from evotorch.tools import (
    ObjectArray,
    ReadOnlyTensor,
    as_immutable,
    as_read_only_tensor,
    clone,
    mutable_copy,
    read_only_tensor,
)
from evotorch.tools.cloning import deep_clone

REFUSALS = (TypeError, ValueError, AttributeError)


def form(x):
    """What an object holds, as plain data which nothing else refers to."""
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    if isinstance(x, torch.Tensor):
        return ("tensor", str(x.dtype), x.tolist())
    if isinstance(x, ObjectArray) or (isinstance(x, np.ndarray) and x.dtype == np.dtype(object)):
        return ("objects", [form(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tolist())
    if isinstance(x, Mapping):
        return ("dict", [(form(k), form(v)) for k, v in x.items()])
    if isinstance(x, (set, Set)):
        return ("set", sorted((form(v) for v in x), key=repr))
    return ("list", [form(v) for v in x])


def changeable(x):
    """Whether everything within a mutable copy can be changed."""
    if isinstance(x, torch.Tensor):
        return not isinstance(x, ReadOnlyTensor)
    if isinstance(x, ObjectArray):
        return not x.is_read_only
    if isinstance(x, np.ndarray):
        return x.flags["WRITEABLE"] and (x.dtype != np.dtype(object) or all(changeable(v) for v in x))
    if isinstance(x, (dict, list)):
        return all(changeable(v) for v in (x.values() if isinstance(x, dict) else x))
    return x is None or isinstance(x, (set, str, bool, int, float))


def draw_object(sim, depth=2):
    """Something that can be put into an object array."""
    ch = sim.ch
    kind = ch.draw(6 if depth == 0 else 12)
    if kind == 0:
        return ch.rng_int(0, 99)
    if kind == 1:
        return ch.pick([None, "x", "abc", 2.5, True])
    if kind == 2:
        return torch.tensor([float(ch.draw(9)) for _ in range(ch.rng_int(1, 3))])
    if kind == 3:
        return np.array([ch.draw(9) for _ in range(ch.rng_int(1, 3))])
    if kind == 4:
        return {ch.pick([1, 2, 3, "a", "b"]) for _ in range(ch.rng_int(0, 3))}
    if kind == 5:
        return [ch.draw(9) for _ in range(ch.rng_int(0, 3))]
    if kind in (6, 7):
        return [draw_object(sim, depth - 1) for _ in range(ch.rng_int(0, 3))]
    if kind == 8:
        make = ch.pick([dict, OrderedDict])
        return make((ch.pick(["a", "b", 7, ("p", 1)]), draw_object(sim, depth - 1)) for _ in range(ch.rng_int(0, 3)))
    if kind == 9:
        return tuple(draw_object(sim, depth - 1) for _ in range(ch.rng_int(0, 3)))
    items = [draw_object(sim, depth - 1) for _ in range(ch.rng_int(1, 3))]
    box = ObjectArray(len(items)) if kind == 10 else np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        box[i] = x
    return box


def spoil(x):
    """The user goes on changing what they have given."""
    if isinstance(x, torch.Tensor):
        if not isinstance(x, ReadOnlyTensor):
            x += 100
    elif isinstance(x, np.ndarray):
        if x.dtype == np.dtype(object):
            for i, v in enumerate(x):
                spoil(v)
                x[i] = "spoiled"
        elif x.flags["WRITEABLE"]:
            x += 100
    elif isinstance(x, ObjectArray):
        if not x.is_read_only:
            for i in range(len(x)):
                x[i] = "spoiled"
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = 1
    elif isinstance(x, set):
        x.add("spoiled")
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)


def attack(sim, x, depth=0):
    """Attempts to change what must not be changed; each must be refused."""
    ch = sim.ch

    def refused(what, attempt):
        sim.fault("illegal_write")
        try:
            attempt()
        except REFUSALS:
            return
        sim.check(False, "write-accepted", f"{what} of a {type(x).__name__} was possible")

    def add_inplace():
        y = x
        y += 1

    if isinstance(x, torch.Tensor):
        sim.check(isinstance(x, ReadOnlyTensor), "not-read-only", f"a stored tensor is a {type(x).__name__}")
        if x.numel() == 0 or x.dtype is torch.bool:
            return
        ones = torch.ones_like(x.as_subclass(torch.Tensor))
        which = ch.draw(12)
        if which == 0:
            refused("setting an item", lambda: x.__setitem__(slice(None), 7))
        elif which == 1:
            refused("add_", lambda: x.add_(1))
        elif which == 2:
            refused("+=", add_inplace)
        elif which == 3:
            refused("writing by out", lambda: torch.add(x, 1, out=x))
        elif which == 4:
            refused("writing to its numpy array", lambda: x.numpy().__setitem__(slice(None), 7))
        elif which == 5:
            refused("writing to an array made of it", lambda: np.asarray(x).__setitem__(slice(None), 7))
        elif which == 6:
            refused("fill_ of a slice", lambda: x[:1].fill_(7))
        elif which == 7:
            refused("fill_ of a view", lambda: x.view(-1).fill_(7))
        elif which == 8:
            refused("fill_ of a reshaped view", lambda: x.reshape(-1).fill_(7))
        elif which == 9:
            refused("torch.neg_", lambda: torch.neg_(x))
        elif which == 10:
            refused("torch.Tensor.copy_", lambda: torch.Tensor.copy_(x, ones))
        else:
            refused("fill_ after detach", lambda: x.detach().fill_(7))
    elif isinstance(x, ObjectArray):
        sim.check(x.is_read_only, "not-read-only", "a stored object array can be written to")
        if len(x) > 0:
            if ch.chance(1 / 2):
                refused("setting an item", lambda: x.__setitem__(0, "changed"))
            else:
                refused("setting an item of a slice", lambda: x[:].__setitem__(0, "changed"))
    elif isinstance(x, np.ndarray):
        sim.check(x.dtype != np.dtype(object), "not-read-only", "a stored array of objects")
        if x.size > 0:
            refused("setting an item", lambda: x.__setitem__(0, 7))
    elif x is None or isinstance(x, (str, bool, int, float)):
        return
    else:
        sim.check(not isinstance(x, (list, dict, set, tuple)), "not-read-only", f"a stored {type(x).__name__}")
        if isinstance(x, Mapping):
            refused("setting an item", lambda: x.__setitem__("a", 1))
        elif isinstance(x, Set):
            refused("adding an element", lambda: x.add("changed"))
        else:
            refused("appending", lambda: x.append("changed"))
            if len(x) > 0:
                refused("setting an item", lambda: x.__setitem__(0, "changed"))


def inner(sim, x):
    """One of the objects within an object (or the object itself)."""
    ch = sim.ch
    for _ in range(3):
        if isinstance(x, (Mapping, ObjectArray)) or (hasattr(x, "__len__") and not isinstance(x, (torch.Tensor, np.ndarray, str, Set))):
            if len(x) == 0 or ch.chance(1 / 3):
                return x
            parts = list(x.values()) if isinstance(x, Mapping) else list(x)
            x = parts[ch.draw(len(parts))]
        else:
            return x
    return x


class Handle:
    """An object array, and where its cells are in the model."""

    def __init__(self, array, cells, places, read_only):
        self.array, self.cells, self.places, self.read_only = array, cells, places, read_only

    def __len__(self):
        return len(self.places)


def look(sim, handles):
    for n, h in enumerate(handles):
        sim.check(len(h.array) == len(h), "array-length", f"array {n}: {len(h.array)}, not {len(h)}")
        sim.check(h.array.is_read_only == h.read_only, "array-read-only", f"array {n}: {h.array.is_read_only}")
        for i in range(len(h)):
            have, want = form(h.array[i]), h.cells[h.places[i]]
            sim.check(have == want, "array-content", lambda: f"array {n} [{i}]: {have} instead of {want}")


def draw_index(sim, n):
    """An index which selects several elements, and these elements; whether the result shares the memory."""
    ch = sim.ch
    kind = ch.draw(4)
    if kind == 0 or n == 0:
        a = ch.rng_int(0, n)
        b = ch.rng_int(a, n)
        s = ch.pick([slice(a, b), slice(None), slice(a, None), slice(None, None, 2)])
        return s, list(range(n))[s], True
    if kind == 1:
        ids = [ch.rng_int(-n, n - 1) for _ in range(ch.rng_int(1, 4))]
    elif kind == 2:
        ids = [ch.draw(n) for _ in range(ch.rng_int(1, 3))]
        return torch.tensor(ids), ids, False
    else:
        m = [ch.chance(1 / 2) for _ in range(n)]
        return torch.tensor(m), [i for i in range(n) if m[i]], False
    return ids, [i % n for i in ids], False


def arrays(sim):
    ch = sim.ch
    n = ch.rng_int(1, 6)
    size = ch.pick([n, (n,), torch.tensor([n])])
    handles = [Handle(ObjectArray(size), [None] * n, list(range(n)), False)]
    for _ in range(ch.rng_int(1, 24)):
        h = handles[ch.draw(len(handles))]
        n = len(h)
        what = ch.weighted([6, 4, 3, 4, 2, 2, 1, 1])
        if what == 0 and n > 0:
            x = draw_object(sim)
            i = ch.rng_int(-n, n - 1)
            if h.read_only:
                sim.fault("illegal_write")
                try:
                    h.array[i] = x
                    sim.check(False, "write-accepted", "a read-only object array was written to")
                except ValueError:
                    pass
            else:
                want = form(x)
                sim.sched("put", i, want)
                h.array[ch.pick([i, np.int64(i), torch.tensor(i)])] = x
                h.cells[h.places[i]] = want
                spoil(x)
        elif what == 1 and not h.read_only:
            index, ids, _ = draw_index(sim, n)
            if len(set(ids)) != len(ids):
                continue
            k = ch.draw(5)
            if sim.faults_on and ch.chance(1 / 8):
                sim.fault("impossible_assignment")
                try:
                    h.array[index] = ["too", "many"] * (len(ids) + 1)
                    sim.check(False, "impossible-accepted", "too many objects for a slice")
                except TypeError:
                    continue
            if k == 0:
                x = torch.tensor([[float(q), float(ch.draw(9))] for q in range(len(ids))]).reshape(len(ids), 2)
                wants = [form(r.clone()) for r in x]
            elif k == 1:
                x = np.array([[q, ch.draw(9)] for q in range(len(ids))]).reshape(len(ids), 2)
                wants = [form(r.copy()) for r in x]
            else:
                x = [draw_object(sim) for _ in ids]
                if len(x) > 1 and ch.chance(1 / 3):
                    x[1] = x[0]
                wants = [form(v) for v in x]
            sim.sched("put-many", index, wants)
            h.array[index] = (v for v in x) if k == 2 else tuple(x) if k == 3 else x
            for i, w in zip(ids, wants):
                h.cells[h.places[i]] = w
            spoil(x)
        elif what == 2 and n > 0:
            attack(sim, inner(sim, h.array[ch.draw(n)]))
        elif what == 3:
            index, ids, shared = draw_index(sim, n)
            sim.sched("select", index)
            new = ObjectArray(slice_of=(h.array, index)) if ch.chance(1 / 4) else h.array[index]
            if shared:
                handles.append(Handle(new, h.cells, [h.places[i] for i in ids], h.read_only))
            else:
                handles.append(Handle(new, [h.cells[h.places[i]] for i in ids], list(range(len(ids))), h.read_only))
        elif what == 4:
            sim.sched("read-only")
            new = h.array.get_read_only_view() if ch.chance(1 / 2) else as_read_only_tensor(h.array)
            handles.append(Handle(new, h.cells, list(h.places), True))
        elif what == 5:
            # the process is lost; what was saved goes on
            how = ch.draw(4)
            sim.sched("copy", how)
            if how == 0:
                sim.fault("restored_from_pickle")
                new = pickle.loads(pickle.dumps(h.array))
            elif how == 1:
                new = copy.deepcopy(h.array)
            elif how == 2:
                new = clone(h.array)
            else:
                new = h.array.clone(preserve_read_only=True)
            handles.append(Handle(new, [h.cells[p] for p in h.places], list(range(n)), h.read_only))
        elif what == 6:
            sim.sched("numpy")
            made = h.array.numpy() if ch.chance(1 / 2) else h.array.clone()
            sim.check(
                isinstance(made, np.ndarray) and made.dtype == np.dtype(object) and form(made)[1] == [h.cells[p] for p in h.places],
                "numpy-copy",
                lambda: f"{made}",
            )
            if ch.chance(1 / 2):
                back = ObjectArray.from_numpy(made)
                handles.append(Handle(back, [h.cells[p] for p in h.places], list(range(n)), False))
            spoil(made)
        else:
            k = ch.draw(3)
            sim.sched("repeat", k)
            new = h.array.repeat(k) if ch.chance(1 / 2) else h.array.repeat((k,))
            handles.append(Handle(new, [h.cells[p] for p in h.places] * k, list(range(n * k)), False))
        look(sim, handles)
        if len(handles) > 6:
            del handles[ch.draw(len(handles))]


def conversions(sim):
    """Single objects made immutable, copied, and saved, in any order."""
    ch = sim.ch
    x = draw_object(sim, 3)
    if ch.chance(1 / 4):
        # the same object at two places
        x = [x, [x]]
    if ch.chance(1 / 6):
        pairs = [(ch.draw(9), ch.draw(9)) for _ in range(5)]
        made = as_immutable(zip([p[0] for p in pairs], [p[1] for p in pairs]))
        sim.check(form(made) == form(pairs), "immutable-copy", lambda: f"{made} made of {pairs}")
    want = form(x)
    frozen = None
    for _ in range(ch.rng_int(1, 8)):
        what = ch.draw(6)
        sim.sched(what)
        if frozen is None or what == 0:
            new = as_immutable(x)
            spoil_old = not isinstance(x, tuple)
            if spoil_old and new is not x:
                spoil(x)
            x = frozen = new
        elif what == 1:
            sim.fault("restored_from_pickle")
            x = frozen = pickle.loads(pickle.dumps(frozen))
        elif what == 2:
            x = frozen = ch.pick([copy.deepcopy, clone, lambda q: deep_clone(q, otherwise_fail=True)])(frozen)
        elif what == 3:
            m = mutable_copy(frozen)
            sim.check(form(m) == want, "mutable-copy", lambda: f"{form(m)} instead of {want}")
            sim.check(changeable(m), "mutable-copy", lambda: f"not everything within {m!r} can be changed")
            spoil(m)
        elif what == 4:
            m = mutable_copy(frozen)
            d = deep_clone(m, otherwise_deepcopy=True)
            sim.check(form(d) == want, "deep-clone", lambda: f"{form(d)} instead of {want}")
            spoil(m)
            sim.check(form(d) == want, "deep-clone-shared", lambda: f"{form(d)} after changes of the original; {want}")
            if ch.chance(1 / 2):
                frozen, x = None, d
        else:
            attack(sim, inner(sim, frozen))
        if isinstance(frozen, np.ndarray):
            # copies of an array alone are numpy's business
            x = frozen = as_immutable(frozen)
        if frozen is not None:
            sim.check(form(frozen) == want, "immutable-content", lambda: f"{form(frozen)} instead of {want}")


def tensors(sim):
    ch = sim.ch
    n = ch.rng_int(1, 6)
    base = torch.arange(n, dtype=ch.pick([torch.float32, torch.int64])) + 1
    mine = base.clone()
    copied = ch.chance(1 / 2)
    if copied and ch.chance(0.4):
        p = Problem("min", solution_length=1, initial_bounds=(0, 1), dtype=base.dtype)
        ro = p.make_tensor(mine.tolist() if ch.chance(0.5) else mine, read_only=True)
        sim.check(isinstance(ro, ReadOnlyTensor) and ro.dtype == base.dtype, "made-read-only", lambda: f"a read-only tensor was asked for, made {type(ro)} of {ro.dtype}")
    else:
        ro = (read_only_tensor if copied else as_read_only_tensor)(mine)
    cells = form(base)
    shared = not copied
    for _ in range(ch.rng_int(1, 12)):
        what = ch.draw(8)
        sim.sched(what)
        if what == 0:
            mine += 1
            if shared:
                cells = form(mine)
        elif what == 1:
            attack(sim, ro)
        elif what == 2:
            ro = ch.pick([copy.copy, copy.deepcopy, clone, lambda q: q.clone(preserve_read_only=True)])(ro)
            shared = False
        elif what == 3:
            sim.fault("restored_from_pickle")
            ro = pickle.loads(pickle.dumps(ro))
            shared = False
        elif what == 4:
            m = ro.clone()
            sim.check(type(m) is torch.Tensor and form(m) == cells, "tensor-clone", lambda: f"{m}")
            m += 50
        elif what == 5:
            # a selection is writable exactly if it has a memory of its own
            index = ch.pick([slice(0, n), slice(0, 1), [0], torch.tensor([n - 1]), torch.arange(n) >= 0])
            part = ro[index]
            own = part.untyped_storage().data_ptr() != ro.untyped_storage().data_ptr()
            if own:
                sim.check(type(part) is torch.Tensor, "selection-kind", lambda: f"{type(part)} for {index}")
                part += 9
            else:
                attack(sim, part)
        elif what == 6:
            # used as an argument of others' operations
            other = torch.zeros_like(mine)
            other.add_(ro)
            other.copy_(ro)
            torch.add(ro, 1, out=other)
            sim.check(other.tolist() == [v + 1 for v in cells[2]], "tensor-use", lambda: f"{other}")
        else:
            s = ro.sum() + (ro * 2).sum()
            sim.check(float(s) == 3 * sum(cells[2]), "tensor-use", lambda: f"{s}")
        sim.check(form(ro) == cells and isinstance(ro, ReadOnlyTensor), "tensor-content", lambda: f"{ro} instead of {cells}")


class Plain:
    """An object of the user."""

    def __init__(self):
        self.part = None


class Holder(Problem):
    """A problem which keeps something of the user."""

    def __init__(self, held):
        super().__init__("min", solution_length=1, initial_bounds=(0, 1))
        self.held = held


def parts_of(x):
    if isinstance(x, dict):
        return list(x.values())
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return list(x)
    if isinstance(x, Plain):
        return [x.part]
    return []


def layout(x):
    """What there is within an object, and which of its parts are the same object (numbered by the first visit)."""
    number, out, todo = {}, [], [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (int, float, str)) or y is None:
            out.append(y)
        elif id(y) in number:
            out.append(("again", number[id(y)]))
        else:
            number[id(y)] = len(number)
            if isinstance(y, torch.Tensor):
                out.append(("tensor", y.tolist()))
            else:
                keys = sorted(y) if isinstance(y, dict) else None
                out.append((type(y).__name__, keys, len(parts_of(y))))
                todo.extend([y[k] for k in keys] if keys is not None else parts_of(y))
    return out


def objects_in(x):
    seen, todo = {}, [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (int, float, str)) or y is None or id(y) in seen:
            continue
        seen[id(y)] = y
        todo.extend(parts_of(y))
    return list(seen.values())


def graphs(sim):
    """Objects whose parts occur more than once, or within themselves, and copies of them."""
    ch = sim.ch
    rings = ch.chance(0.5)
    special = ch.pick(["array", "plain"])
    made = []
    for _ in range(ch.rng_int(1, 7)):

        def part():
            return ch.pick(made) if made and ch.chance(0.7) else ch.rng_int(0, 9)

        # (numpy itself does not copy arrays which contain themselves)
        kind = ch.pick(["list", "dict", "tensor", ch.pick(["array", "plain"]) if not rings else special] + ([] if rings else ["tuple"]))
        if kind == "dict":
            x = {k: part() for k in "abc"[: ch.rng_int(1, 3)]}
        elif kind == "plain":
            x = Plain()
            x.part = part()
        elif kind == "tensor":
            x = torch.tensor([ch.rng_int(0, 9)])
        else:
            x = [part() for _ in range(ch.rng_int(1, 3))]
            if kind == "tuple":
                x = tuple(x)
            elif kind == "array":
                a = np.empty(len(x), dtype=object)
                for i, v in enumerate(x):
                    a[i] = v
                x = a
        made.append(x)
    root = list(made) if ch.chance(0.5) else {str(i): x for i, x in enumerate(made)}
    made.append(root)

    def change(x):
        """One of the objects within is changed."""
        y = ch.pick([o for o in objects_in(x) if not isinstance(o, tuple)])
        new = ch.rng_int(10, 99)
        if isinstance(y, torch.Tensor):
            y += new
        elif isinstance(y, dict):
            y[ch.pick(list(y) + ["new"])] = new
        elif isinstance(y, list):
            y.append(new)
        elif isinstance(y, np.ndarray):
            y[ch.draw(len(y))] = new
        else:
            y.part = new

    if rings:
        for _ in range(ch.rng_int(1, 3)):
            y = ch.pick([o for o in made if isinstance(o, (list, dict, np.ndarray, Plain))])
            z = ch.pick([o for o in made if not isinstance(o, torch.Tensor)])
            if isinstance(y, dict):
                y["ring"] = z
            elif isinstance(y, list):
                y.append(z)
            elif isinstance(y, np.ndarray):
                y[0] = z
            else:
                y.part = z
        sim.probe("rings")
    copies = [[root, layout(root)]]
    for _ in range(ch.rng_int(1, 5)):
        k = ch.draw(len(copies))
        x, want = copies[k]
        what = ch.draw(3)
        sim.sched(what)
        if what == 0:
            change(x)
            copies[k][1] = layout(x)
        else:
            how = ch.draw(3)
            if how == 0:
                new = deep_clone(x, otherwise_deepcopy=True)
            elif how == 1:
                new = Holder(x).clone().held
            else:
                sim.fault("restored_from_pickle")
                new = pickle.loads(pickle.dumps(Holder(x))).held
            sim.check(layout(new) == want, "copy-layout", lambda: f"{layout(new)} instead of {want}")
            mine = {id(o) for o in objects_in(new) if not isinstance(o, tuple)}
            for o, _ in copies:
                both = [y for y in objects_in(o) if id(y) in mine]
                sim.check(not both, "copy-shares", lambda: f"a copy has parts of its original: {both}")
            copies.append([new, want])
        for o, w in copies:
            sim.check(layout(o) == w, "copy-layout", lambda: f"{layout(o)} instead of {w} after a change of another copy")
    sim.probe("graphs")


def c38_objects(sim):
    kind = sim.ch.weighted([5, 3, 2, 2])
    sim.log("kind", kind)
    [arrays, conversions, tensors, graphs][kind](sim)
