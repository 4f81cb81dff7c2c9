"""Reference update rules of the distribution-based searches, written from their definitions
with 64-bit floats: what the center and the standard deviation must be after a generation,
given what was sampled and the fitnesses it got."""

import math

import torch

F = torch.float64


class Undefined(Exception):
    """The rule does not determine the outcome (ties between fitnesses, zero spread)."""


def ranks(fits, method, maximize):
    f = torch.as_tensor(fits, dtype=F)
    n = len(f)
    s = f if maximize else -f
    if method in (None, "raw"):
        return s
    if method == "normalized":
        sd = s.std()
        if float(sd) < 1e-6 * max(1.0, float(s.abs().max())):
            raise Undefined
        return (s - s.mean()) / sd
    if len(set(f.tolist())) != n or n < 2:
        raise Undefined
    order = sorted(range(n), key=lambda i: float(s[i]))
    place = [0] * n
    for r, i in enumerate(order):
        place[i] = r
    r = torch.tensor(place, dtype=F)
    if method == "linear":
        return r / (n - 1)
    if method == "centered":
        return r / (n - 1) - 0.5
    assert method == "nes", method
    u = torch.clamp(math.log(n / 2 + 1) - torch.log(n - r), min=0.0)
    return u / u.sum() - 1.0 / n


class State:
    """Center and spread (a vector, or the matrix A with covariance A A^T for XNES)."""

    def __init__(self, center, spread):
        self.center = torch.as_tensor(center).to(F).clone()
        self.spread = torch.as_tensor(spread).to(F).clone()


def gradients(kind, state, samples, fits, maximize, args):
    x = torch.as_tensor(samples).as_subclass(torch.Tensor).to(F)
    mu, sg = state.center, state.spread
    n = len(x)
    if kind == "CEM":
        f = torch.as_tensor(fits, dtype=F)
        if len(set(f.tolist())) != n:
            raise Undefined
        m = math.floor(n * args["parenthood_ratio"])
        best = sorted(range(n), key=lambda i: float(f[i]), reverse=maximize)[:m]
        e = x[best]
        return {"mu": e.mean(0) - mu, "sigma": e.std(0) - sg}
    method = args.get("ranking_method", {"PGPE": "centered"}.get(kind, "nes"))
    w = ranks(fits, method, maximize)
    z = x - mu
    if kind == "SNES":
        if method != "nes":
            w = w / w.abs().sum()
        return {"mu": (w[:, None] * z).sum(0), "sigma": (w[:, None] * ((z / sg) ** 2 - 1)).sum(0)}
    if method not in ("centered", "normalized"):
        w = w - w.mean()
    if kind == "PGPE":
        if args.get("symmetric", True):
            zp, wp, wm = z[0::2], w[0::2], w[1::2]
            return {
                "mu": (((wp - wm) / 2)[:, None] * zp).sum(0) / (n // 2),
                "sigma": (((wp + wm) / 2)[:, None] * (zp**2 - sg**2) / sg).sum(0) / (n // 2),
            }
        return {"mu": (w[:, None] * z).sum(0) / n, "sigma": (w[:, None] * (z**2 - sg**2) / sg).sum(0) / n}
    assert kind == "XNES"
    y = torch.linalg.solve(sg, z.T).T
    eye = torch.eye(x.shape[1], dtype=F)
    return {
        "d": (w[:, None] * y).sum(0),
        "M": (w[:, None, None] * (y[:, :, None] * y[:, None, :] - eye)).sum(0),
    }


class Follower:
    """How the center follows its gradient (the optimizer's state lives here)."""

    def __init__(self, lr, optimizer, config):
        self.lr, self.kind, self.conf = lr, optimizer, dict(config or {})
        self.v = None
        self.m1 = self.m2 = None
        self.t = 0

    def __call__(self, g):
        c = self.conf
        if self.kind is None:
            return self.lr * g
        if not isinstance(self.kind, str):
            return self.kind.ascent(g)
        if self.kind in ("clipup", "clipsgd", "clipsga"):
            if float(g.norm()) < 1e-12:
                raise Undefined
            v = torch.zeros_like(g) if self.v is None else self.v
            v = c.get("momentum", 0.9) * v + self.lr * g / g.norm()
            top = c.get("max_speed", 2 * self.lr)
            if float(v.norm()) > top:
                v = v * (top / v.norm())
            self.v = v
            return v
        if self.kind in ("sgd", "sga"):
            m = c.get("momentum", 0.0)
            self.v = g.clone() if self.v is None or not m else m * self.v + (1 - c.get("dampening", 0.0)) * g
            return self.lr * (g + m * self.v if c.get("nesterov") else self.v)
        assert self.kind == "adam"
        b1, b2, eps = c.get("beta1", 0.9), c.get("beta2", 0.999), c.get("epsilon", 1e-8)
        if self.m1 is None:
            self.m1, self.m2 = torch.zeros_like(g), torch.zeros_like(g)
        self.t += 1
        self.m1 = b1 * self.m1 + (1 - b1) * g
        self.m2 = b2 * self.m2 + (1 - b2) * g * g
        top = self.m2
        if c.get("amsgrad"):
            top = self.top = self.m2 if self.t == 1 else torch.maximum(self.top, self.m2)
        return self.lr * (self.m1 / (1 - b1**self.t)) / ((top / (1 - b2**self.t)).sqrt() + eps)


def rates(kind, L, args):
    """(center learning rate, spread learning rate)"""
    if kind == "CEM":
        return 1.0, 1.0
    if kind == "PGPE":
        return args["center_learning_rate"], args["stdev_learning_rate"]
    base = 0.2 * (3 + math.log(L)) / math.sqrt(L) if kind == "SNES" else 0.6 * (3 + math.log(L)) / (L * math.sqrt(L))
    s = args.get("stdev_learning_rate")
    if s is None:
        s = base
    elif args.get("scale_learning_rate", True):
        s = s * base
    c = args.get("center_learning_rate")
    return (1.0 if c is None else c), s


class Reference:
    def __init__(self, kind, L, args, center, spread):
        self.kind, self.L, self.args = kind, L, args
        if kind == "XNES" and torch.as_tensor(spread).ndim == 1:
            spread = torch.diag(torch.as_tensor(spread).to(F))
        self.state = State(center, spread)
        c, s = rates(kind, L, args)
        opt = args.get("optimizer", "clipup" if kind == "PGPE" else None)
        self.follow = Follower(c, opt, args.get("optimizer_config"))
        self.slr = s

    def gradients(self, samples, fits, maximize):
        c, s = self.state.center, self.state.spread
        if max(float(c.abs().max()), float(s.abs().max())) > 1e4 or float(s.abs().max()) < 1e-6:
            raise Undefined
        if s.ndim == 2 and float(torch.linalg.cond(s)) > 1e3:
            raise Undefined  # the result would mostly be rounding errors
        least = float(torch.linalg.svdvals(s).min()) if s.ndim == 2 else float(s.min())
        lost = torch.finfo(samples.dtype).eps * float(samples.abs().max()) / least
        if lost > (1e-4 if samples.dtype == torch.float32 else 2e-9):
            raise Undefined  # the samples hardly differ in their last digits
        if self.kind == "PGPE" and self.args.get("ranking_method", "centered") in (None, "raw"):
            f, z = torch.as_tensor(fits, dtype=F), samples.to(F) - c
            w = float((f - f.mean()).abs().max()) * torch.finfo(samples.dtype).eps
            if self.slr * w * float((z**2 / s + s).max()) > (1e-4 if samples.dtype == torch.float32 else 2e-9) * least:
                raise Undefined  # huge fitnesses which almost cancel each other out
        return gradients(self.kind, self.state, samples, fits, maximize, self.args)

    def update(self, g):
        """The next state; `self.state` is advanced to it."""
        mu, sg = self.state.center, self.state.spread
        if self.kind == "XNES":
            self.state = State(
                mu + sg @ self.follow(g["d"]), sg @ torch.linalg.matrix_exp(0.5 * self.slr * g["M"])
            )
            if float(torch.linalg.cond(self.state.spread)) > 1e3:
                raise Undefined
            return self.state
        new_mu = mu + self.follow(g["mu"])
        if self.kind == "SNES":
            new = sg * torch.exp(0.5 * self.slr * g["sigma"])
        else:
            new = sg + self.slr * g["sigma"]
        self.state = State(new_mu, self.limited(sg, new))
        return self.state

    def limited(self, old, new):
        a = self.args
        ch = a.get("stdev_max_change", 0.2 if self.kind == "PGPE" else None)
        lo, hi = a.get("stdev_min"), a.get("stdev_max")
        as_t = lambda v: torch.as_tensor(v, dtype=F)
        if ch is not None:
            r = as_t(ch) * old.abs()
            new = torch.maximum(torch.minimum(new, old + r), old - r)
        if lo is not None:
            new = torch.maximum(new, as_t(lo))
        if hi is not None:
            new = torch.minimum(new, as_t(hi))
        return new


def initial_spread(L, args):
    if args.get("stdev_init") is not None:
        s = torch.as_tensor(args["stdev_init"], dtype=F)
    else:
        s = torch.tensor(math.sqrt(args["radius_init"] ** 2 / L), dtype=F)
    return s.expand(L).clone() if s.ndim == 0 else s.clone()


def deviation(a, b, scale):
    """The largest difference relative to the given scale."""
    a, b = torch.as_tensor(a).to(F), torch.as_tensor(b).to(F)
    if a.shape != b.shape:
        return float("inf")
    if not bool(torch.isfinite(b).all()):
        raise Undefined
    d = (a - b).abs().max()
    return float("inf") if bool(torch.isnan(d)) else float(d) / max(scale, 1e-12)
