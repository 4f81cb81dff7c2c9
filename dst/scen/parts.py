"""Parts of policies which remember: running statistics (C39), hidden states (C40)."""

import copy
import pickle

import numpy as np
import torch
from torch import nn

from evotorch.neuroevolution.net import MultiLayered, RunningNorm, RunningStat, StatefulModule
from evotorch.neuroevolution.net.layers import LSTM, RNN, Apply, Clip, LocomotorNet, Slice
from evotorch.neuroevolution.net.vecrl import Policy

F = np.float64


def same(a, b, tol=1e-4):
    a, b = np.asarray(a, dtype=F), np.asarray(b, dtype=F)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ------------------------------------------------------------------------ statistics


class Seen:
    """A collector of statistics, and all the observations which it must have seen."""

    def __init__(self, real, data):
        self.real, self.data = real, data

    @property
    def stat(self):
        return isinstance(self.real, RunningStat)

    def numbers(self, low_variance):
        d = np.array(self.data)
        var = np.maximum((d * d).mean(axis=0) - d.mean(axis=0) ** 2, low_variance)
        return d.mean(axis=0), np.sqrt(var)


def c39_statistics(sim):
    ch = sim.ch
    shape = ch.pick([(1,), (2,), (3,), (2, 2), ()])
    dtype = ch.pick([torch.float32, torch.float64])
    low = ch.pick([1e-2, 1e-2, 0.5])
    clip = ch.pick([None, None, (-1.0, 1.5), (-0.5, 0.25)])
    all_stats = ch.chance(0.35)
    if all_stats:
        low, clip, dtype = 1e-2, None, torch.float32
    sim.log("setup", shape, dtype, low, clip, all_stats)

    def make():
        if all_stats:
            return RunningStat()
        given = shape[0] if len(shape) == 1 and ch.chance(0.5) else shape
        return RunningNorm(shape=given, dtype=ch.pick([dtype, str(dtype).split(".")[1]]), min_variance=low, clip=clip)

    def draw_obs(n=None):
        full = shape if n is None else (n,) + shape
        return np.array([ch.rng_int(-8, 8) for _ in range(int(np.prod(full)))], dtype=F).reshape(full)

    def wrapped(x):
        """The same numbers, in one of the accepted forms."""
        kind = ch.draw(5)
        if kind == 0:
            return torch.as_tensor(x.copy(), dtype=dtype)
        if kind == 1:
            return torch.as_tensor(x.copy(), dtype=torch.float64)
        if kind == 2:
            return x.astype("float32")
        if kind == 3:
            return x.copy()
        return x.tolist()

    seen = [Seen(make(), [])]
    lent = []  # what the user has given, and what it must still be
    layers = []

    def give(x):
        g = wrapped(x)
        if not isinstance(g, (list, float)):
            lent.append((g, x.copy()))
        return g

    def expect(s, x, mean, stdev):
        r = (x - mean) / stdev
        return r if clip is None else np.clip(r, *clip)

    for _ in range(ch.rng_int(2, 25)):
        s = seen[ch.draw(len(seen))]
        what = ch.weighted([6, 5, 4, 3, 1, 3, 2, 2, 3, 1])
        sim.sched(what, len(s.data))
        if what == 0:
            x = draw_obs()
            s.real.update(give(x))
            s.data.append(x)
        elif what == 1 and not s.stat:
            n = ch.rng_int(0 if sim.faults_on else 1, 4)
            x = draw_obs(n)
            mask = [ch.chance(0.5) for _ in range(n)] if ch.chance(0.6) else None
            taken = [x[i] for i in range(n) if mask is None or mask[i]]
            if mask is not None and sim.faults_on and ch.chance(0.4):
                # observations of environments which have gone wrong are masked out
                for i in range(n):
                    if not mask[i]:
                        sim.fault("broken_observation")
                        x[i] = ch.pick([np.nan, np.inf, -np.inf])
            if len(taken) == 0:
                sim.probe("nothing-taken")
            m = mask if mask is None else ch.pick([mask, torch.tensor(mask, dtype=torch.bool), np.array(mask, dtype=bool)])
            if ch.chance(0.7) or len(s.data) + len(taken) == 0:
                s.real.update(give(x) if n else torch.as_tensor(x, dtype=dtype), m)
                s.data.extend(taken)
            else:
                plain = n > 0 and ch.chance(0.3)
                y = s.real.update_and_normalize(np.array(x) if plain else torch.as_tensor(x, dtype=dtype), m)
                sim.check(isinstance(y, np.ndarray if plain else torch.Tensor), "form", lambda: f"{type(y)}")
                y = torch.as_tensor(y)
                s.data.extend(taken)
                mean, stdev = s.numbers(low)
                want = expect(s, x, mean, stdev)
                keep = [i for i in range(n) if mask is None or mask[i]]
                sim.check(same(y[keep], want[keep]), "normalized", lambda: f"{y} instead of {want}")
        elif what == 2:
            # what another worker has seen arrives
            o = seen[ch.draw(len(seen))]
            other = pickle.loads(pickle.dumps(o.real)) if ch.chance(0.5) else o.real
            s.real.update(other)
            s.data = s.data + list(o.data)
        elif what == 3:
            how = ch.draw(3)
            if how == 2:
                sim.fault("restored_from_pickle")
            new = [copy.copy, copy.deepcopy, lambda r: pickle.loads(pickle.dumps(r))][how](s.real)
            seen.append(Seen(new, list(s.data)))
        elif what == 4:
            s.real.reset()
            s.data = []
        elif what == 5:
            x = draw_obs() if s.stat or ch.chance(0.5) else draw_obs(ch.rng_int(1, 3))
            g = give(x)
            if not s.data:
                if s.stat:
                    sim.check(s.real.normalize(g) is g, "normalized-from-nothing", "normalized without any data")
                else:
                    try:
                        s.real.normalize(g)
                        sim.check(False, "normalized-from-nothing", "normalized without any data")
                    except ValueError:
                        pass
                continue
            mean, stdev = s.numbers(low)
            y = s.real.normalize(g)
            if not s.stat:
                sim.check(isinstance(y, torch.Tensor) == isinstance(g, torch.Tensor), "normalized-kind", lambda: f"{type(y)}")
            sim.check(same(y, expect(s, x, mean, stdev)), "normalized", lambda: f"{y} instead of {expect(s, x, mean, stdev)}")
        elif what == 6 and s.data:
            mean, stdev = s.numbers(low)
            layers.append((s.real.to_layer(), mean, stdev))
        elif what == 7:
            seen.append(Seen(make(), []))
        elif what == 8 and sim.faults_on and not s.stat:
            sim.fault("refused_update")
            k = ch.draw(8 if shape and max(shape) > 1 else 5)
            wrong = tuple(d + 1 for d in shape) if shape else (1, 1)
            try:
                if k == 0:
                    s.real.update(torch.ones(wrong, dtype=dtype))
                elif k == 1:
                    s.real.update(torch.ones((2, 2) + shape + (1,), dtype=dtype))
                elif k == 2:
                    s.real.update(torch.ones((2,) + shape, dtype=dtype), [True])
                elif k == 3:
                    s.real.update(torch.ones(shape, dtype=dtype), [True])
                elif k == 5:
                    s.real.update(torch.ones((2,) + wrong, dtype=dtype))
                elif k == 6:
                    # (this could be broadcast)
                    s.real.update(torch.ones((2,) * ch.draw(2) + tuple(1 for _ in shape), dtype=dtype))
                elif k == 7:
                    s.real.update_and_normalize(torch.ones((2,) * ch.draw(2) + tuple(1 for _ in shape), dtype=dtype))
                else:
                    other = RunningNorm(shape=shape + (4,), dtype=dtype)
                    other.update(torch.ones(shape + (4,), dtype=dtype))
                    s.real.update(other)
                sim.check(False, "impossible-accepted", f"update {k} of shape {shape} was accepted")
            except ValueError:
                pass
        elif what == 9:
            sim.check(s.real.to("cpu") is s.real, "to-same-device", "not the same object")
            if not s.stat and ch.chance(0.5):
                far = s.real.to("meta")
                sim.check(far is not s.real and far.count == len(s.data), "to-another-device", lambda: f"{far}")
        # the user goes on using what they have given
        for g, x in lent:
            sim.check(np.array_equal(np.asarray(g, dtype=F), x, equal_nan=True), "argument-changed", lambda: f"{g} instead of {x}")
        while lent and ch.chance(0.5):
            g, _ = lent.pop()
            g += 100
        for n, s in enumerate(seen):
            sim.check(s.real.count == len(s.data), "count", lambda: f"collector {n}: {s.real.count}, not {len(s.data)}")
            if s.data:
                d = np.array(s.data)
                sim.check(same(s.real.sum, d.sum(axis=0), 1e-6), "sum", lambda: f"collector {n}: {s.real.sum}, not {d.sum(axis=0)}")
                sim.check(same(s.real.sum_of_squares, (d * d).sum(axis=0), 1e-6), "sum-of-squares", lambda: f"collector {n}: {s.real.sum_of_squares}")
                mean, stdev = s.numbers(low)
                have = s.real.mean, s.real.stdev
                sim.check(same(have[0], mean) and same(have[1], stdev), "statistics", lambda: f"collector {n}: {have}, not {mean}, {stdev}")
                for h in have:
                    h += 1
        for layer, mean, stdev in layers:
            x = draw_obs()
            if ch.chance(0.3):
                layer = pickle.loads(pickle.dumps(layer))
            y = layer(torch.as_tensor(x, dtype=dtype))
            sim.check(same(y, expect(None, x, mean, stdev)), "layer", lambda: f"{y} instead of {expect(None, x, mean, stdev)}")
        if len(seen) > 5:
            del seen[ch.draw(len(seen))]
        del layers[:-2]


# ---------------------------------------------------------------------- hidden states


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


ACT = {"tanh": np.tanh, "relu": lambda x: np.maximum(x, 0), "sigmoid": sigmoid}


class Layers:
    """The networks drawn here, computed apart in double precision."""

    def __init__(self, spec, flat):
        self.spec = spec
        self.flat = np.asarray(flat, dtype=F)
        self.reset()

    def reset(self):
        self.h = {}

    def copy(self):
        c = Layers(self.spec, self.flat)
        c.h = dict(self.h)
        return c

    def __call__(self, x):
        x = np.asarray(x, dtype=F)
        at = 0

        def take(*shape):
            nonlocal at
            n = int(np.prod(shape))
            at += n
            return self.flat[at - n : at].reshape(shape)

        for k, (kind, i, o, extra) in enumerate(self.spec):
            if kind == "linear":
                w = take(o, i)
                x = w @ x + take(o)
            elif kind == "act":
                x = ACT[extra](x)
            elif kind == "clip":
                x = np.clip(x, *extra)
            elif kind == "apply":
                op, by = extra
                x = x + by if op == "+" else x - by if op == "-" else x * by if op == "*" else x / by
            elif kind == "slice":
                x = x[extra[0] : extra[1]]
            elif kind == "offset":
                x = x * take(i) + np.linspace(extra, 2 * extra, i)
            elif kind == "rnn":
                w1, w2, b1, b2 = take(o, i), take(o, o), take(o), take(o)
                x = ACT[extra](w1 @ x + b1 + w2 @ self.h.get(k, np.zeros(o)) + b2)
                self.h[k] = x
            elif kind == "lstm":
                wi = [take(o, i) for _ in range(4)]
                wh = [take(o, o) for _ in range(4)]
                bi = [take(o) for _ in range(4)]
                bh = [take(o) for _ in range(4)]
                h, c = self.h.get(k, (np.zeros(o), np.zeros(o)))
                z = [wi[q] @ x + bi[q] + wh[q] @ h + bh[q] for q in range(4)]
                c = sigmoid(z[1]) * c + sigmoid(z[0]) * np.tanh(z[2])
                x = sigmoid(z[3]) * np.tanh(c)
                self.h[k] = (x, c)
        return x


def draw_spec(sim):
    ch = sim.ch
    sizes = [ch.rng_int(1, 3)]
    spec = []
    for _ in range(ch.rng_int(1, 3)):
        kind = ch.weighted([3, 3, 2, 1, 1, 1, 1, 1])
        i = sizes[-1]
        o = ch.rng_int(1, 3)
        if kind == 0:
            spec.append(("rnn", i, o, ch.pick(["tanh", "relu", "sigmoid"])))
        elif kind == 1:
            spec.append(("lstm", i, o, None))
        elif kind == 2:
            spec.append(("linear", i, o, None))
        elif kind == 3:
            spec.append(("act", i, i, ch.pick(["tanh", "relu"])))
            o = i
        elif kind == 4:
            spec.append(("clip", i, i, (-0.5, 0.25)))
            o = i
        elif kind == 5:
            spec.append(("apply", i, i, (ch.pick(["+", "-", "*", "/"]), ch.pick([0.5, -2.0]))))
            o = i
        elif kind == 6:
            a = ch.draw(i)
            b = ch.rng_int(a + 1, i)
            spec.append(("slice", i, b - a, (a, b)))
            o = b - a
        else:
            spec.append(("offset", i, i, ch.pick([1.0, -0.75])))
            o = i
        sizes.append(o)
    return spec


class Offset(nn.Module):
    """A layer with constants which are not parameters."""

    def __init__(self, n, by):
        super().__init__()
        self.register_buffer("by", torch.linspace(by, 2 * by, n))
        self.weight = nn.Parameter(torch.zeros(n))

    def forward(self, x):
        return x * self.weight + self.by


TORCH_ACT = {"tanh": "Tanh", "relu": "ReLU", "sigmoid": "Sigmoid"}


def build(sim, spec, textual=False):
    if textual and all(k[0] != "offset" for k in spec):
        parts = []
        for kind, i, o, extra in spec:
            if kind == "linear":
                parts.append(f"Linear({i}, {o})")
            elif kind == "clip":
                parts.append(f"Clip({extra[0]}, {extra[1]})")
            elif kind == "slice":
                parts.append(f"Slice({extra[0]}, {extra[1]})")
            elif kind == "apply":
                parts.append(f"Apply('{extra[0]}', {extra[1]})")
            elif kind == "act":
                parts.append(f"{TORCH_ACT[extra]}()")
            elif kind == "rnn":
                parts.append(f"RNN({i}, {o}, nonlinearity='{extra}')")
            else:
                parts.append(f"LSTM({i}, {o})")
        return " >> ".join(parts)
    parts = []
    for kind, i, o, extra in spec:
        if kind == "linear":
            parts.append(nn.Linear(i, o))
        elif kind == "clip":
            parts.append(Clip(*extra))
        elif kind == "slice":
            parts.append(Slice(*extra))
        elif kind == "apply":
            parts.append(Apply(*extra))
        elif kind == "offset":
            parts.append(Offset(i, extra))
        elif kind == "act":
            parts.append(getattr(nn, TORCH_ACT[extra])())
        elif kind == "rnn":
            parts.append(RNN(i, o, extra))
        else:
            parts.append(LSTM(i, o))
    if len(parts) == 1 and sim.ch.chance(0.5):
        return parts[0]
    return MultiLayered(*parts)


def draw_flat(sim, *shape):
    n = int(np.prod(shape))
    return torch.tensor([sim.ch.rng_int(-8, 8) / 4 for _ in range(n)], dtype=torch.float32).reshape(shape)


def policies(sim):
    """Vectorized policies: each row has parameters and a memory of its own."""
    ch = sim.ch
    spec = draw_spec(sim)
    net = build(sim, spec, textual=ch.chance(0.4))
    real = Policy(net)
    length = real.parameter_length
    sim.log("policy", spec, length)
    state = {"real": real, "rows": None, "batched": None}
    saved = []
    returned = []  # what has been returned must stay as it is
    lent = []
    for step in range(ch.rng_int(2, 18)):
        real, rows = state["real"], state["rows"]
        what = 0 if rows is None else ch.weighted([1, 8, 3, 2, 2, 2, 1])
        sim.sched(what)
        if what == 0:
            n = ch.pick([None, 1, 2, 3, 5])
            flat = draw_flat(sim, *([length] if n is None else [n, length]))
            lent.append((flat, flat.clone()))
            real.set_parameters(flat)
            each = [flat] if n is None else list(flat)
            state["rows"] = [Layers(spec, f) for f in each]
            state["batched"] = n is not None
        elif what == 1:
            x = draw_flat(sim, len(rows), spec[0][1])
            if sim.faults_on and all(k[0] != "slice" for k in spec) and ch.chance(0.1):
                sim.fault("refused_input")
                try:
                    real(draw_flat(sim, *([len(rows) + 1] if state["batched"] else []), spec[0][1] + 1))
                except Exception as e:
                    sim.log("refused", type(e).__name__)
            y = real(x if state["batched"] else x[0])
            want = np.array([r(v) for r, v in zip(rows, x)])
            want = want if state["batched"] else want[0]
            sim.check(same(y.detach(), want), "output", lambda: f"{y} instead of {want}")
            returned.append((y, y.detach().clone()))
        elif what == 2:
            if not state["batched"] or ch.chance(0.3):
                real.reset()
                ids = range(len(rows))
            else:
                index, ids = draw_rows(sim, len(rows))
                real.reset(index)
            for i in ids:
                rows[i].reset()
        elif what == 3 and state["batched"]:
            index, ids = draw_rows(sim, len(rows))
            flat = draw_flat(sim, len(ids), length)
            reset = ch.chance(0.6)
            real.set_parameters(flat, index, **({} if reset and ch.chance(0.5) else {"reset": reset}))
            for i, f in zip(ids, flat):
                new = Layers(spec, f)
                if not reset:
                    new.h = dict(rows[i].h)
                rows[i] = new
        elif what == 4:
            saved.append((pickle.dumps(real) if ch.chance(0.5) else copy.deepcopy(real), [r.copy() for r in rows], state["batched"]))
        elif what == 5 and saved:
            # the process was lost; it goes on from an earlier state
            sim.fault("back_to_checkpoint")
            was, rows, batched = saved[ch.draw(len(saved))]
            real = pickle.loads(was) if isinstance(was, bytes) else copy.deepcopy(was)
            state.update(real=real, rows=[r.copy() for r in rows], batched=batched)
        elif what == 6:
            # one of the networks is taken out; it remembers nothing
            i = ch.draw(len(rows))
            flat = torch.as_tensor(rows[i].flat, dtype=torch.float32)
            alone = StatefulModule(real.to_torch_module(flat))
            ref = Layers(spec, flat)
            for _ in range(ch.rng_int(1, 4)):
                if ch.chance(0.2):
                    alone.reset()
                    ref.reset()
                x = draw_flat(sim, spec[0][1])
                y, want = alone(x), ref(x)
                sim.check(same(y.detach(), want), "exported-output", lambda: f"{y} instead of {want}")
        for y, was in returned:
            sim.check(torch.equal(y.detach(), was), "returned-changed", lambda: f"{y} instead of {was}")
        for g, was in lent:
            sim.check(torch.equal(g, was), "argument-changed", "the given parameters were changed")
        if state["rows"] is not None:
            have = state["real"].parameters
            want = np.array([r.flat for r in state["rows"]])
            sim.check(same(have, want if state["batched"] else want[0]), "parameters", lambda: f"{have}")


def draw_rows(sim, n):
    ch = sim.ch
    mask = [ch.chance(0.5) for _ in range(n)]
    ids = [i for i in range(n) if mask[i]]
    if ch.chance(0.5):
        return torch.tensor(mask), ids
    if ch.chance(0.5):
        ch.shuffle(ids)
    return torch.tensor(ids, dtype=torch.int64), ids


def alone(sim):
    """Networks with a memory, one episode after the other."""
    ch = sim.ch
    kind = ch.draw(2)
    if kind == 0:
        spec = draw_spec(sim)
        net = build(sim, spec)
        ins = spec[0][1]
        flat = draw_flat(sim, sum(p.numel() for p in net.parameters()))
        ref = Layers(spec, flat)
        nn.utils.vector_to_parameters(flat, net.parameters())
    else:
        ins, outs, waves = ch.rng_int(1, 3), ch.rng_int(1, 2), ch.rng_int(1, 3)
        net = LocomotorNet(in_features=ins, out_features=outs, num_sinusoids=waves, bias=ch.chance(0.5))
        ref = Waves(net, ins, outs, waves)
    sim.log("alone", kind, ins)
    real = StatefulModule(MultiLayered(net) if ch.chance(0.3) else net)
    saved = []
    for _ in range(ch.rng_int(2, 14)):
        what = ch.weighted([6, 2, 1, 1])
        sim.sched(what)
        if what == 0:
            x = draw_flat(sim, ins)
            y, want = real(x), ref(x)
            sim.check(same(y.detach(), want), "output", lambda: f"{y} instead of {want}")
        elif what == 1:
            real.reset()
            ref.reset()
        elif what == 2:
            with torch.no_grad():
                saved.append((copy.deepcopy(real) if kind else pickle.dumps(real), ref.copy()))
        elif saved:
            sim.fault("back_to_checkpoint")
            was, r = saved[ch.draw(len(saved))]
            real = copy.deepcopy(was) if kind else pickle.loads(was)
            ref = r.copy()


class Waves:
    """LocomotorNet by its definition."""

    def __init__(self, net, ins, outs, waves, t=0):
        self.net, self.args, self.t = net, (ins, outs, waves), t
        p = [v.detach().double().numpy() for v in net.parameters()]
        self.w = p[0]
        rest = p[1:]
        self.b = rest.pop(0) if len(rest) > 3 * waves else 0.0
        self.a, self.f, self.phi = rest[:waves], rest[waves : 2 * waves], rest[2 * waves :]

    def copy(self):
        return Waves(self.net, *self.args, t=self.t)

    def reset(self):
        self.t = 0

    def __call__(self, x):
        y = self.w @ np.asarray(x, dtype=F) + self.b
        for a, f, phi in zip(self.a, self.f, self.phi):
            y = y + a * np.sin(f * self.t + phi)
        self.t += 1
        return y


def c40_memories(sim):
    [policies, alone][sim.ch.weighted([3, 1])](sim)
