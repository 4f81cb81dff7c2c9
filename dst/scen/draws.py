"""Random draws of problems, generators and of the global stream (C41)."""

import math
import pickle

import numpy as np
import torch

from evotorch import Problem
from evotorch.tools import misc

from .. import kernel

FLOATS = [torch.float32, torch.float64, torch.float16, torch.bfloat16]
INTS = [torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8]
NAMES = {d: str(d).split(".")[1] for d in FLOATS + INTS + [torch.bool]}


def fitness(x):
    return torch.sum(x.to(torch.float32), dim=-1)


def make_problem(spec):
    seed, length, dtype, bounds = spec
    return Problem("min", fitness, solution_length=length, initial_bounds=bounds, dtype=dtype, seed=seed, vectorized=True)


HELPERS = []


class Source:
    """A source of random numbers, and everything which was drawn from it since its creation."""

    def __init__(self, kind, spec, real, story):
        self.kind, self.spec, self.real, self.story = kind, spec, real, story

    @classmethod
    def fresh(cls, kind, spec):
        if kind == "problem":
            return cls(kind, spec, make_problem(spec), [])
        if kind == "generator":
            g = torch.Generator()
            g.manual_seed(spec)
            return cls(kind, spec, g, [])
        torch.manual_seed(spec)
        return cls(kind, spec, None, [])

    def call(self, route, name, args, kwargs):
        if self.kind == "generator" and route == 2 and HELPERS:
            # by means of a problem, which has another generator
            helper = HELPERS[len(self.story) % len(HELPERS)]
            state = helper.generator.get_state()
            if "out" not in kwargs and "dtype" not in kwargs and name != "make_randint":
                kwargs = {**kwargs, "dtype": torch.float32}
            try:
                return getattr(helper, name)(*args, generator=self.real, **kwargs)
            finally:
                kernel.current().check(torch.equal(state, helper.generator.get_state()), "other-generator-used", f"{name} used the problem's own generator")
        if name in ("generate_values", "generate_batch"):
            r = getattr(self.real, name)(*args)
            return r if isinstance(r, torch.Tensor) else r.values.clone()
        if name == "shaped":
            fn, like, kwargs = args[0], args[1], kwargs
            return getattr(self.real, f"make_{fn}_shaped_like")(like, **kwargs)
        if self.kind == "problem" and route == 0:
            return getattr(self.real, name)(*args, **kwargs)
        if self.kind == "problem" and "out" not in kwargs and "dtype" not in kwargs and name != "make_randint":
            kwargs = {**kwargs, "dtype": self.real.dtype}
        source = self.real
        if self.kind == "problem" and route == 2:
            source = self.real.generator
        return getattr(misc, name)(*args, generator=source, **kwargs)


def limits(dtype):
    i = torch.iinfo(dtype)
    return max(i.min, -(2**40)), min(i.max, 2**40)


def draw_int_bounds(ch, dtype):
    low, high = limits(dtype)
    kind = ch.draw(4)
    if kind == 0:
        a = ch.rng_int(max(low, -5), 5)
        return a, a + ch.rng_int(0, 6)
    if kind == 1:
        return low, high
    if kind == 2:
        return low + ch.rng_int(0, 9), high - ch.rng_int(0, 9)
    return high - ch.rng_int(0, 5), high


def draw_float_bounds(ch):
    a = ch.rng_int(-16, 16) / 8
    return a, a + ch.pick([0.0, 0.125, 1.0, 3.5, 100.0])


def bounded(sim, r, lb, ub, what):
    lb, ub = (v.to(torch.float64).numpy() if isinstance(v, torch.Tensor) else np.asarray(v, dtype=np.float64) for v in (lb, ub))
    x = r.to(torch.float64).numpy()
    sim.check(bool(np.all(x >= lb) and np.all(x <= ub)), "out-of-bounds", lambda: f"{what}: {r} not in {lb} .. {ub}")


def even(sim, r, n, what):
    """Are the integers 0 .. n-1 equally frequent in r?"""
    total = r.numel()
    for k in (max(1, n // 4), max(1, n // 2)):
        p = k / n
        got = int((r < k).sum())
        sim.check(
            abs(got - p * total) <= 7 * math.sqrt(total * p * (1 - p)) + 1,
            "not-uniform",
            lambda: f"{what}: {got} of {total} are among the lowest {k} of {n}",
        )


def c41_draws(sim):
    ch = sim.ch
    HELPERS[:] = [make_problem((3, 2, torch.float32, (0.0, 1.0)))]
    sources = []

    def new_source():
        kind = ch.pick(["problem", "problem", "generator"])
        seed = ch.rng_int(0, 2**20)
        if kind == "problem":
            dtype = ch.pick([torch.float32, torch.float32, torch.float64, torch.int64, torch.int8, torch.uint8, torch.bool])
            if dtype == torch.bool:
                bounds = (False, True)
            else:
                bounds = draw_float_bounds(ch) if dtype.is_floating_point else draw_int_bounds(ch, dtype)
            spec = (seed, ch.rng_int(1, 4), dtype, bounds)
        else:
            spec = seed
        sim.log("source", kind, spec)
        sources.append(Source.fresh(kind, spec))

    sources.append(Source.fresh("global", ch.rng_int(0, 2**20)))
    new_source()

    def draw_size(big):
        if big:
            return (3000,)
        return tuple(ch.rng_int(0, 4) for _ in range(ch.rng_int(1, 3)))

    def one(s):
        own = s.kind == "problem"
        what = ch.weighted([6, 5, 5, 2 if own else 0, 2 if own else 0])
        route = ch.draw(3)
        kwargs, check = {}, []
        big = ch.chance(0.12)
        if what == 3:
            n = ch.rng_int(0, 5)
            _, length, dtype, (lb, ub) = s.spec
            name, args = ch.pick(["generate_values", "generate_batch"]), (n,)

            def look(r):
                sim.check(tuple(r.shape) == (n, length) and r.dtype == dtype, "shape", lambda: f"{r} instead of {(n, length)}, {dtype}")
                bounded(sim, r, lb, ub, s.spec)

            return 0, name, args, kwargs, look, []
        if what == 4:
            size = draw_size(big)
            like = torch.zeros(size, dtype=torch.int16)
            fn = ch.pick(["uniform", "gaussian"])
            if fn == "gaussian" and not s.spec[2].is_floating_point:
                fn = "uniform"

            def look(r):
                sim.check(r.shape == like.shape and r.dtype == s.spec[2], "shape", lambda: f"{r} instead of {size}, {s.spec[2]}")
                if fn == "uniform":
                    bounded(sim, r, *(kwargs.values() or (0, 1)), "shaped like")
                elif kwargs:
                    x = (r.to(torch.float64) - kwargs["center"]) / kwargs["stdev"]
                    sim.check(bool((x.abs() <= 8).all()), "moments", lambda: f"{r} with {kwargs}")

            if ch.chance(0.5):
                if fn == "gaussian":
                    kwargs.update(center=ch.pick([-50.0, 100.0]), stdev=ch.pick([0.5, 0.25]))
                elif s.spec[2] != torch.bool:
                    kwargs.update(zip(("lb", "ub"), draw_float_bounds(ch) if s.spec[2].is_floating_point else draw_int_bounds(ch, s.spec[2])))
            return 0, "shaped", (fn, like), kwargs, look, []
        name = ["make_uniform", "make_gaussian", "make_randint"][what]
        size = draw_size(big)
        if name == "make_gaussian":
            dtype = ch.pick(FLOATS)
        elif name == "make_uniform":
            dtype = ch.pick(FLOATS + INTS + INTS + [torch.bool])
        else:
            dtype = ch.pick(INTS + FLOATS[:2])
        symmetric = name == "make_gaussian" and size[0] % 2 == 0 and ch.chance(0.4)
        if symmetric:
            kwargs["symmetric"] = True
        lent = []

        def maybe_tensor(v):
            """The given number, or a tensor of it as wide as the result."""
            k = ch.draw(3)
            if k == 0 or big:
                return v
            t = torch.full((size[-1],) if k == 1 else size, v, dtype=dtype)
            lent.append((t, t.clone()))
            return t

        lb = ub = n = None
        if name == "make_uniform":
            if ch.chance(0.8):
                if dtype == torch.bool:
                    lb = ch.chance(0.5)
                    ub = lb or ch.chance(0.5)
                elif dtype.is_floating_point:
                    lb, ub = draw_float_bounds(ch)
                else:
                    lb, ub = draw_int_bounds(ch, dtype)
                kwargs["lb"], kwargs["ub"] = maybe_tensor(lb), maybe_tensor(ub)
                if not big and dtype != torch.bool and ch.chance(0.3):
                    # different ones for the different elements
                    wide = ub - lb
                    lows = [lb + (ch.draw(2) * wide if dtype.is_floating_point else ch.draw(2) * (wide // 2)) for _ in range(size[-1])]
                    lb = torch.tensor(lows, dtype=dtype)
                    top = torch.full(size, ub, dtype=dtype)
                    if dtype.is_floating_point:
                        top = torch.maximum(top, lb)
                    kwargs["lb"], kwargs["ub"] = lb, ch.pick([top, ub])
                    lent[:] = [(t, t.clone()) for t in (kwargs["lb"], kwargs["ub"]) if isinstance(t, torch.Tensor)]
        elif name == "make_gaussian":
            if ch.chance(0.6):
                center, stdev = ch.rng_int(-4, 4) / 2, ch.pick([0.0, 0.5, 2.0])
                kwargs["center"], kwargs["stdev"] = maybe_tensor(center), maybe_tensor(stdev)
        else:
            high = 2**20 if dtype.is_floating_point else min(limits(dtype)[1], 2**40)
            n = ch.pick([1, 2, 3, 7, high // 2 + high // 4, high])
            kwargs["n"] = maybe_tensor(n)
        form = ch.draw(4)
        base = None
        scalar = False
        if form == 0 and len(size) == 1 and size[0] > 0:
            args = size
        elif form == 3:
            # into (a part of) an existing tensor
            base = torch.full((size[0] * 2 + 1,) + size[1:], 77, dtype=torch.float32).to(dtype)
            args = ()
            where = slice(1, size[0] + 1) if ch.chance(0.5) else slice(0, size[0] * 2, 2)
            kwargs["out"] = base[where]
        elif form == 2 and not symmetric and not lent and ch.chance(0.4):
            args, size, scalar = ((),), (), True
        else:
            args = (size,) if ch.chance(0.5) else size
        if base is None:
            kwargs["dtype"] = ch.pick([dtype, NAMES[dtype]])
            default = torch.int64 if name == "make_randint" else torch.float32
            if dtype == default and s.kind != "problem" and ch.chance(0.5):
                del kwargs["dtype"]

        def look(r):
            sim.check(tuple(r.shape) == tuple(size) and r.dtype == dtype, "shape", lambda: f"{r} instead of {size}, {dtype}")
            if base is not None:
                o = kwargs["out"]
                sim.check(r is o, "out-not-returned", "another tensor was returned")
                outside = torch.ones(base.shape, dtype=torch.bool)
                outside[where] = False
                sim.check(bool((base[outside] == torch.tensor(77.0).to(dtype)).all()), "outside-of-out", lambda: f"{base}")
            if name == "make_uniform":
                a, b = (0, 1) if lb is None else (lb, ub)
                # (the bounds are subject to the precision of the dtype)
                bounded(sim, r, *(torch.as_tensor(v, dtype=dtype) if dtype.is_floating_point else v for v in (a, b)), f"make_uniform {dtype}")
                if big and not dtype.is_floating_point and not scalar:
                    even(sim, r.to(torch.int64) - int(a), int(b) - int(a) + 1, f"make_uniform {dtype} {a} .. {b}")
            elif name == "make_randint":
                bounded(sim, r, 0, n - 1, f"make_randint {dtype}")
                sim.check(bool((r == r.to(torch.int64)).all()), "not-integers", lambda: f"{r}")
                if big and not scalar:
                    even(sim, r.to(torch.int64), n, f"make_randint {dtype} {n}")
            else:
                sim.check(bool(torch.isfinite(r).all()), "not-finite", lambda: f"{r}")
                c = d = None
                if "center" in kwargs:
                    c, d = center, stdev
                    if d == 0:
                        sim.check(bool((r == c).all()), "center", lambda: f"{r} instead of {c}")
                if symmetric:
                    x = r.to(torch.float64) - (0.0 if c is None else c)
                    sim.check(bool(torch.allclose(x[0::2], -x[1::2], atol=0.05)), "not-symmetric", lambda: f"{r}")
                if big and not symmetric and not scalar and d != 0:
                    x = (r.to(torch.float64) - (0.0 if c is None else c)) / (1.0 if d is None else d)
                    sim.check(abs(float(x.mean())) < 0.13 and abs(float(x.std()) - 1) < 0.1, "moments", lambda: f"{float(x.mean())}, {float(x.std())}")

        return route, name, args, kwargs, look, lent

    def draw_failure():
        """Calls which must be refused."""
        k = ch.draw(4)
        if k == 0:
            return "make_uniform", ((2,),), {"lb": 1.0, "dtype": torch.float32}
        if k == 1:
            return "make_gaussian", ((3, 2),), {"symmetric": True, "dtype": torch.float32}
        if k == 2:
            return "make_gaussian", ((2,),), {"stdev": 1.0, "dtype": torch.float32}
        return "make_uniform", ((2,),), {"out": torch.zeros(2)}

    for _ in range(ch.rng_int(2, 22)):
        s = sources[ch.draw(len(sources))]
        k = ch.weighted([12, 1, 2, 2, 2])
        sim.sched(k, s.kind)
        if k == 0:
            before = torch.get_rng_state()
            route, name, args, kwargs, look, lent = one(s)
            sim.log("draw", s.kind, route, name)
            r = s.call(route, name, args, kwargs)
            look(r)
            for t, was in lent:
                sim.check(torch.equal(t, was), "argument-changed", lambda: f"{t} instead of {was}")
            if s.kind != "global":
                sim.check(torch.equal(before, torch.get_rng_state()), "global-stream-touched", lambda: f"{name} of a {s.kind}")
            s.story = s.story + [(name, args, kwargs, r.clone())]
        elif k == 1:
            new_source()
        elif k == 2 and s.kind != "global":
            # a copy continues where the original is now
            if s.kind == "problem":
                copied = s.real.clone() if ch.chance(0.5) else pickle.loads(pickle.dumps(s.real))
                sim.fault("restored_from_pickle")
            else:
                copied = torch.Generator()
                copied.set_state(s.real.get_state())
            sources.append(Source(s.kind, s.spec, copied, s.story))
        elif k == 3 and sim.faults_on:
            sim.fault("refused_draw")
            name, args, kwargs = draw_failure()
            own = s.kind == "problem" and "out" not in kwargs and ch.chance(0.5)
            try:
                s.call(0 if own else 1, name, args, kwargs)
                sim.check(False, "impossible-accepted", f"{name} {args} {kwargs}")
            except ValueError:
                pass
            s.story = s.story + [(name, args, kwargs, None)]
        elif k == 4 and s.kind == "problem":
            # an evaluation does not draw
            b = s.real.generate_batch(3)
            s.story = s.story + [("generate_batch", (3,), {}, b.values.clone())]
            s.real.evaluate(b)

    # each source alone, from its beginning
    for s in sources:
        again = Source.fresh(s.kind, s.spec)
        for i, (name, args, kwargs, r) in enumerate(s.story):
            route = ch.draw(3)
            if r is None:
                try:
                    again.call(1, name, args, kwargs)
                except ValueError:
                    pass
                continue
            if "out" in kwargs:
                # into memory of the same layout
                o = kwargs["out"]
                room = torch.zeros(o.untyped_storage().nbytes() // o.element_size(), dtype=o.dtype)
                kwargs = {**kwargs, "out": torch.as_strided(room, o.shape, o.stride())}
            x = again.call(route, name, args, kwargs)
            sim.check(torch.equal(x, r), "stream", lambda: f"draw {i} ({name}) of a {s.kind}: {r}, alone {x}")
