"""Reference CMA-ES (Hansen 2016, diagonal variant after Ros & Hansen 2008), 64-bit floats.

It follows an observed search: it is told the sampled population and its fitnesses, and says
where the center and the step size must be afterwards."""

import math

import torch

F = torch.float64


class RefCMA:
    def __init__(self, L, popsize, args, center):
        d = L
        self.d, self.n, self.args = d, popsize, args
        self.sep = args.get("separable", False)
        self.active = args.get("active", True)
        self.m = torch.as_tensor(center).to(F).clone()
        self.sigma = float(args["stdev_init"])
        self.C = torch.ones(d, dtype=F) if self.sep else torch.eye(d, dtype=F)
        self.A = self.C.clone()
        mu = self.mu = popsize // 2
        raw = [math.log((popsize + 1) / 2) - math.log(i + 1) for i in range(popsize)]
        pos, neg = raw[:mu], raw[mu:]
        me = self.mu_eff = sum(pos) ** 2 / sum(w * w for w in pos)

        def rate(name, default):
            v = args.get(name)
            return args.get(name + "_ratio", 1.0) * (default if v is None else v)

        self.cm = args.get("c_m", 1.0)
        self.cs = rate("c_sigma", (me + 2) / (d + me + 3))
        self.ds = rate("damp_sigma", 1 + 2 * max(0.0, math.sqrt((me - 1) / (d + 1)) - 1) + self.cs)
        if self.sep:
            self.cc = rate("c_c", (1 + 1 / d + me / d) / (math.sqrt(d) + 1 / d + 2 * me / d))
            self.c1 = rate("c_1", 1.0 / (d + 2 * math.sqrt(d) + me / d))
            self.cmu = rate("c_mu", (0.25 + me + 1 / me - 2) / (d + 4 * math.sqrt(d) + me / 2))
        else:
            self.cc = rate("c_c", (4 + me / d) / (d + 4 + 2 * me / d))
            self.c1 = rate("c_1", min(1, popsize / 6) * 2 / ((d + 1.3) ** 2 + me))
            self.cmu = rate("c_mu", min(1 - self.c1, 2 * (0.25 + me - 2 + 1 / me) / ((d + 2) ** 2 + me)))
        pos = [w / sum(pos) for w in pos]
        if self.active:
            men = sum(neg) ** 2 / sum(w * w for w in neg)
            alpha = min(
                1 + self.c1 / self.cmu, 1 + 2 * men / (me + 2), (1 - self.cmu - self.c1) / (d * self.cmu)
            )
            s = sum(abs(w) for w in neg)
            neg = [alpha * w / s for w in neg]
        else:
            neg = [0.0] * len(neg)
        self.w = torch.tensor(pos + neg, dtype=F)
        self.ps = torch.zeros(d, dtype=F)
        self.pc = torch.zeros(d, dtype=F)
        self.chi = math.sqrt(d) * (1 - 1 / (4 * d) + 1 / (21 * d * d))
        self.every = 1
        if args.get("limit_C_decomposition", True):
            self.every = max(1, math.floor(1 / (10 * d * (self.c1 + self.cmu))))
        self.steps = 0

    def step(self, xs, fits, maximize):
        d = self.d
        x = torch.as_tensor(xs).as_subclass(torch.Tensor).to(F)
        order = sorted(range(self.n), key=lambda i: float(fits[i]), reverse=maximize)
        y = (x - self.m) / self.sigma
        z = y / self.A if self.sep else torch.linalg.solve(self.A, y.T).T
        y, z = y[order], z[order]
        w = self.w
        top = slice(0, self.mu)
        dz = (w[top, None] * z[top]).sum(0)
        dy = (w[top, None] * y[top]).sum(0)
        self.m = self.m + self.cm * self.sigma * dy
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mu_eff) * dz
        if self.args.get("csa_squared", False):
            e = (float(self.ps.norm()) ** 2 / d - 1) / 2
        else:
            e = float(self.ps.norm()) / self.chi - 1
        self.sigma = self.sigma * math.exp(self.cs / self.ds * e)
        sq = float(self.ps.norm()) ** 2 / (1 - (1 - self.cs) ** (2 * self.steps + 1))
        self.margin = abs(sq / d - 1 - (1 + 4.0 / (d + 1)))
        h = 1.0 if sq / d - 1 < 1 + 4.0 / (d + 1) else 0.0
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.mu_eff) * dy
        if self.active:
            w = torch.where(w > 0, w, d * w / z.norm(dim=1) ** 2)
        c1a = self.c1 * (1 - (1 - h * h) * self.cc * (2 - self.cc))
        if self.sep:
            self.C = self.C + c1a * (self.pc**2 - self.C) + self.cmu * (w[:, None] * (y**2 - self.C)).sum(0)
        else:
            self.C = (
                self.C
                + self.c1 * torch.outer(self.pc, self.pc)
                - c1a * self.C
                + self.cmu * ((w[:, None, None] * (y[:, :, None] * y[:, None, :])).sum(0) - self.w.sum() * self.C)
            )
        lo, hi = self.args.get("stdev_min"), self.args.get("stdev_max")
        if self.sep and (lo is not None or hi is not None):
            s = torch.clamp(self.sigma * self.C.sqrt(), min=lo, max=hi)
            self.C = (s / self.sigma) ** 2
        self.steps += 1
        if self.steps % self.every == 0:
            self.A = self.C.sqrt() if self.sep else torch.linalg.cholesky(self.C)
