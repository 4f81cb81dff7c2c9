"""Functional searches: states as crash-safe checkpoints, batches of independent searches: C37."""

import copy
import itertools
import math
import pickle

import torch

from evotorch import distributions
from evotorch.algorithms import functional as fn

from ..refdist import F, Follower, Reference, State, Undefined, deviation, gradients, initial_spread, ranks
from ..kernel import InjectedError

TOL = {torch.float64: 1e-7, torch.float32: 5e-3}
INF = float("inf")
NAN = float("nan")


# ---- an optimizer of the user


def glide(*, center_init, center_learning_rate, factor=1.0):
    return {"center": torch.as_tensor(center_init), "rate": center_learning_rate, "factor": factor}


def glide_ask(state):
    return state["center"]


def glide_tell(state, *, follow_grad):
    rate = torch.as_tensor(state["rate"], dtype=follow_grad.dtype)
    return {**state, "center": state["center"] + state["factor"] * rate[..., None] * follow_grad}


GLIDE = (glide, glide_ask, glide_tell)


class Glide:
    def __init__(self, rate):
        self.rate = rate

    def ascent(self, g):
        return self.rate * g


# ---- states


def tensors_of(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from tensors_of(v)
    elif isinstance(x, tuple):
        for v in x:
            yield from tensors_of(v)


def image(x):
    return [(t.shape, t.dtype, t.detach().clone()) for t in tensors_of(x)]


def same_image(a, b):
    return len(a) == len(b) and all(
        s == s2 and d == d2 and bool(((t == t2) | ((t != t) & (t2 != t2))).all()) for (s, d, t), (s2, d2, t2) in zip(a, b)
    )


class Setup:
    """What is searched: shapes, arguments for the library, arguments for each batch item's reference."""

    def __init__(self, sim):
        ch = sim.ch
        self.sim = sim
        self.batch = ch.pick([(), (1,), (3,), (2,), (2, 2)])
        self.items = list(itertools.product(*[range(n) for n in self.batch]))
        self.L = ch.rng_int(1, 4)
        self.dtype = ch.pick([torch.float32, torch.float64])
        self.own = {i: {} for i in self.items}
        self.args = {}

    def at(self, t, i, tail):
        """The part of a possibly batched tensor which belongs to a batch item; `tail`: number of non-batch dimensions."""
        lead = t.ndim - tail
        shape = t.shape[lead:]
        t = t.expand(self.batch + shape)
        return t[i] if i != () else t

    def arg(self, name, pick, ndim, scalar_ok=True, config=None, batched=None):
        """Give an argument as a scalar, a vector, or a batch of these."""
        ch = self.sim.ch
        form = ch.draw(3) if batched is None else (2 if batched else 0)
        if ndim == 1 and form == 0 and not scalar_ok:
            form = 1
        if self.batch == () and form == 2:
            form = 1

        def vec():
            return [pick() for _ in range(self.L)]

        if form == 0 or (form == 1 and ndim == 0):
            v = pick()
            given, mine = v, {i: v for i in self.items}
        elif form == 1:
            v = vec()
            given, mine = ch.pick([v, torch.tensor(v, dtype=self.dtype)]), {i: v for i in self.items}
        else:
            mine = {i: (vec() if ndim == 1 else pick()) for i in self.items}
            given = torch.tensor([mine[i] for i in self.items], dtype=self.dtype).reshape(
                self.batch + ((self.L,) if ndim == 1 else ())
            )
        (self.args if config is None else config)[name] = given
        for i in self.items:
            if config is None:
                self.own[i][name] = mine[i]
            else:
                self.own[i].setdefault("optimizer_config", {})[name] = mine[i]
        return mine


def draw_start(s, batched=None):
    ch = s.sim.ch
    mine = s.arg("center_init", lambda: ch.rng_int(-8, 8) / 4, 1, scalar_ok=False, batched=batched)
    s.args["center_init"] = torch.as_tensor(s.args["center_init"], dtype=s.dtype)
    return mine


def draw_spread(s):
    ch = s.sim.ch
    if ch.chance(1 / 2):
        s.arg("stdev_init", lambda: ch.pick([0.25, 0.5, 1.0, 2.0]), 1)
    else:
        s.arg("radius_init", lambda: ch.pick([0.5, 1.0, 3.0]), 0)
    if ch.chance(1 / 3):
        s.arg("stdev_min", lambda: ch.pick([0.01, 0.1, 0.24]), 1)
    if ch.chance(1 / 3):
        s.arg("stdev_max", lambda: ch.pick([2.0, 3.0]), 1)
    if ch.chance(1 / 2):
        s.arg("stdev_max_change", lambda: ch.pick([0.02, 0.1, 0.5]), 1)


def draw_optimizer(s, kind, config):
    ch = s.sim.ch
    if kind == "clipup":
        if ch.chance(1 / 2):
            s.arg("momentum", lambda: ch.pick([0.5, 0.8]), 0, config=config)
        if ch.chance(1 / 2):
            s.arg("max_speed", lambda: ch.pick([0.1, 0.3]), 0, config=config)
    elif kind == "adam":
        for name in ("beta1", "beta2"):
            if ch.chance(1 / 2):
                s.arg(name, lambda: ch.pick([0.5, 0.8]), 0, config=config)
        if ch.chance(1 / 3):
            s.arg("epsilon", lambda: ch.pick([1e-3, 1e-2]), 0, config=config)
    elif kind in ("sgd", "sga", "momentum"):
        if ch.chance(1 / 2):
            s.arg("momentum", lambda: ch.pick([0.5, 0.8]), 0, config=config)


class Node:
    """A checkpoint: a state of the search, and the references of the batch items at that point."""

    def __init__(self, state, refs):
        self.state, self.refs = state, refs
        self.image = image(state)
        self.told = None  # (arguments of tell, image of the state it gave)


def pick_node(sim, nodes):
    ch = sim.ch
    node = nodes[-1]
    if sim.faults_on and len(nodes) > 1 and ch.chance(1 / 4):
        node = nodes[ch.draw(len(nodes))]
        sim.fault("back_to_checkpoint")
    if sim.faults_on and ch.chance(1 / 4):
        sim.fault("crash_and_restore")
        node.state = pickle.loads(pickle.dumps(node.state))
    sim.check(same_image(image(node.state), node.image), "checkpoint-changed", "a state has changed after it was made")
    return node


def told_again(sim, node, tell):
    """What was told to a checkpoint, told again, must lead to the very same state."""
    if node.told is not None:
        how, then = node.told
        sim.probe("told-again")
        sim.check(same_image(image(tell(node.state, how)), then), "tell-differs", "telling the same again gave another state")


def advance(sim, s, refs, step):
    """The references of the batch items after a step (None: no longer determined)."""
    new = {}
    for i in s.items:
        r = refs[i]
        if r is not None:
            r = copy.deepcopy(r)
            try:
                step(i, r)
            except Undefined:
                r = None
        new[i] = r
    return new


def followers(s, kind):
    refs = {}
    for i in s.items:
        own = s.own[i]
        conf = dict(own.get("optimizer_config", {}))
        rate = own["center_learning_rate"] if "center_learning_rate" in own else None
        if kind == "clipup" and rate is None:
            rate = conf["max_speed"] / 2
        if kind == "adam" and rate is None:
            rate = 0.001
        refs[i] = [torch.tensor(own["center_init"], dtype=F), Follower(rate, "sgd" if kind in ("sga", "momentum") else kind, conf)]
    return refs


def gradient_ascent(sim, s):
    """The bare optimizers."""
    ch = sim.ch
    kind = ch.pick(["clipup", "adam", "sgd"])
    # something must carry all the batch dimensions from the beginning on
    draw_start(s, batched=True if s.batch else None)
    config = {}
    draw_optimizer(s, kind, config)
    if kind == "sgd" or (kind == "clipup" and "max_speed" not in config) or ch.chance(1 / 2):
        s.arg("center_learning_rate", lambda: ch.pick([0.05, 0.1, 0.2]), 0)
    sim.log(kind, s.batch, s.L, s.dtype, {k: ("glide" if isinstance(v, tuple) else v) for k, v in s.args.items()}, config)
    init, ask, tell = {
        "clipup": (fn.clipup, fn.clipup_ask, fn.clipup_tell),
        "adam": (fn.adam, fn.adam_ask, fn.adam_tell),
        "sgd": (fn.sgd, fn.sgd_ask, fn.sgd_tell),
    }[kind]

    def do_tell(state, how):
        return tell(state, follow_grad=how.clone())

    def compare(node):
        got = ask(node.state)
        for i in s.items:
            if node.refs[i] is not None:
                want = node.refs[i][0]
                have = s.at(got, i, 1)
                d = deviation(have, want, max(1.0, float(want.abs().max())))
                sim.check(d <= TOL[s.dtype], "optimizer-center", lambda: f"{kind} item {i}: {have.tolist()}, expected {want.tolist()}")

    state = init(**s.args, **config)
    nodes = [Node(state, followers(s, kind))]
    compare(nodes[0])
    for k in range(ch.rng_int(1, 10)):
        node = pick_node(sim, nodes)
        told_again(sim, node, do_tell)
        shared = ch.chance(1 / 4) or s.batch == ()
        grads = {}
        one = [ch.rng_int(-9, 9) / 3 or 0.5 for _ in range(s.L)]
        for i in s.items:
            grads[i] = one if shared else [ch.rng_int(-9, 9) / 3 or 0.5 for _ in range(s.L)]
            if not shared and sim.faults_on and len(s.items) > 1 and ch.chance(1 / 12):
                grads[i] = [NAN] * s.L
                sim.fault("failed_item")
        if shared:
            g = torch.tensor(one, dtype=s.dtype)
        else:
            g = torch.tensor([grads[i] for i in s.items], dtype=s.dtype).reshape(s.batch + (s.L,))
        sim.sched("tell", len(nodes), g.tolist())
        mine = g.clone()
        new = do_tell(node.state, g)
        node.told = (g, image(new))
        sim.check(bool(torch.equal(torch.nan_to_num(g), torch.nan_to_num(mine))), "argument-changed", "the given gradient")

        def step(i, r):
            t = torch.tensor(grads[i], dtype=F)
            if bool(torch.isnan(t).any()):
                raise Undefined
            r[0] = r[0] + r[1](t)

        nodes.append(Node(new, advance(sim, s, node.refs, step)))
        compare(nodes[-1])
        sim.check(same_image(image(node.state), node.image), "checkpoint-changed", "tell has changed the state given to it")


def search(sim, s):
    """CEM and PGPE."""
    ch = sim.ch
    kind = ch.pick(["CEM", "PGPE"])
    draw_start(s)
    draw_spread(s)
    sense = ch.pick(["min", "max"])
    s.args["objective_sense"] = sense
    symmetric = False
    optimizer = None
    if kind == "CEM":
        s.args["parenthood_ratio"] = ratio = ch.pick([0.5, 0.3, 0.75])
        for i in s.items:
            s.own[i]["parenthood_ratio"] = ratio
        init, ask, tell = fn.cem, fn.cem_ask, fn.cem_tell
    else:
        init, ask, tell = fn.pgpe, fn.pgpe_ask, fn.pgpe_tell
        s.arg("center_learning_rate", lambda: ch.pick([0.1, 0.3, 0.5]), 0)
        s.arg("stdev_learning_rate", lambda: ch.pick([0.1, 0.2]), 0)
        if ch.chance(1 / 2):
            s.args["ranking_method"] = rk = ch.pick(["centered", "linear", "nes", "raw", "normalized"])
            for i in s.items:
                s.own[i]["ranking_method"] = rk
        symmetric = True
        if ch.chance(1 / 2):
            s.args["symmetric"] = symmetric = ch.chance(1 / 2)
        optimizer = ch.pick([None, "clipup", "adam", "sgd", "momentum", "sga", "user"])
        config = {}
        if optimizer is not None:
            s.args["optimizer"] = GLIDE if optimizer == "user" else optimizer
            draw_optimizer(s, optimizer, config)
        if config or ch.chance(1 / 4):
            s.args["optimizer_config"] = config
    refs = {}
    for i in s.items:
        own = s.own[i]
        if kind == "PGPE":
            own["symmetric"] = symmetric
            own["optimizer"] = {None: "clipup", "momentum": "sgd", "sga": "sgd"}.get(optimizer, optimizer)
            if optimizer == "user":
                own["optimizer"] = Glide(own["center_learning_rate"])
        spread = initial_spread(s.L, own)
        refs[i] = Reference(kind, s.L, own, torch.tensor(own["center_init"], dtype=F), spread)
    sim.log(kind, s.batch, s.L, s.dtype, {k: ("glide" if isinstance(v, tuple) else v) for k, v in s.args.items()})
    given = image(s.args)
    state = init(**s.args)
    nodes = [Node(state, refs)]
    maximize = sense == "max"
    center_of = (lambda st: st.center) if kind == "CEM" else (lambda st: center_in(st.optimizer_state))

    def compare(node):
        """Each batch item must be where its own search would be."""
        center, spread = center_of(node.state), node.state.stdev
        sim.check(center.dtype == s.dtype and spread.dtype == s.dtype, "state-dtype", f"{center.dtype} {spread.dtype}")
        for i in s.items:
            r = node.refs[i]
            if r is None:
                continue
            c, w = s.at(center, i, 1), s.at(spread, i, 1)
            sc = max(float(r.state.center.abs().max()), float(r.state.spread.abs().max()), 1e-3)
            try:
                d1 = deviation(c, r.state.center, sc)
                d2 = deviation(w, r.state.spread, max(float(r.state.spread.abs().max()), 1e-9))
            except Undefined:
                node.refs[i] = None
                continue
            sim.check(d1 <= TOL[s.dtype], "search-center", lambda: f"{kind} item {i}: {c.tolist()}, expected {r.state.center.tolist()}")
            sim.check(d2 <= TOL[s.dtype], "search-spread", lambda: f"{kind} item {i}: {w.tolist()}, expected {r.state.spread.tolist()}")
            sim.probe("compared")
        node.dead = bool(torch.isnan(spread).any() | torch.isnan(center).any())

    def do_tell(state, how):
        return tell(state, *[h.clone() for h in how])

    compare(nodes[0])
    for k in range(ch.rng_int(1, 6)):
        node = pick_node(sim, [n for n in nodes if not n.dead])
        told_again(sim, node, do_tell)
        center, spread = center_of(node.state), node.state.stdev
        n = 2 * ch.rng_int(2, 6)
        if ch.chance(1 / 10):
            n = 400
        if not symmetric and ch.chance(1 / 2):
            n += 1
        seed = ch.seed() % 2**31
        torch.manual_seed(seed)
        pop = ask(node.state, popsize=n)
        if ch.chance(1 / 4):
            torch.rand(ch.rng_int(1, 3))
            torch.manual_seed(seed)
            again = ask(node.state, popsize=n)
            sim.check(torch.equal(again.nan_to_num(), pop.nan_to_num()), "ask-not-reproducible", "with the same seed, another population")
        lead = torch.broadcast_shapes(center.shape[:-1], spread.shape[:-1])
        sim.check(tuple(pop.shape) == tuple(lead) + (n, s.L), "population-shape", f"{tuple(pop.shape)} for {n} solutions")
        sim.check(pop.dtype == s.dtype, "population-dtype", f"{pop.dtype}")
        # where the population comes from
        z = ((pop.to(F) - center.to(F)[..., None, :]) / spread.to(F)[..., None, :]).reshape(-1, n, s.L)
        sound = [bool(torch.isfinite(q).all()) and float(q.abs().max()) > 1e-3 for q in z]
        fine = min(float(spread.nan_to_num(nan=1.0).abs().min()), 1.0) > 1e-3 and float(center.nan_to_num().abs().max()) < 100
        for b, q in enumerate(z):
            if not sound[b] or not fine:
                continue
            sim.check(float(q.abs().max()) < 8.0, "not-from-distribution", lambda: f"normalised samples up to {float(q.abs().max())}")
            if symmetric:
                d = float((q[0::2] + q[1::2]).abs().max())
                sim.check(d < (1e-1 if s.dtype == torch.float32 else 1e-6), "not-antithetic", lambda: f"pairs differ by {d}")
            if n >= 400:
                m = n // 2 if symmetric else n
                e = q[0::2] if symmetric else q
                sim.check(float(e.mean(0).abs().max()) < 6.5 / math.sqrt(m), "not-from-distribution", "mean of the samples")
                sim.check(float((e.std(0) - 1).abs().max()) < 6.5 / math.sqrt(2 * m), "not-from-distribution", "spread of the samples")
            for b2 in range(b):
                if sound[b2]:
                    sim.check(float((z[b2] - q).abs().max()) > 1e-2, "batch-not-independent", "two batch items have got the same samples")
        # the evaluation of one batch item may fail
        shape = pop.shape[:-1]
        gen = torch.Generator().manual_seed(ch.seed() % 2**31)
        evals = torch.randn(shape, generator=gen, dtype=s.dtype) * 5
        if sim.faults_on and ch.chance(1 / 4):
            flat = evals.reshape(-1, n)
            b = ch.draw(len(flat))
            if ch.chance(1 / 2) and len(flat) > 1:
                flat[b] = NAN
                sim.fault("failed_item")
            else:
                flat[b, ch.draw(n)] = ch.pick([INF, -INF])
                sim.fault("infinite_fitness")
            evals = flat.reshape(shape)
        sim.sched("tell", len(nodes), n, seed)
        before = image((pop, evals))
        new = do_tell(node.state, (pop, evals))
        node.told = ((pop, evals), image(new))
        sim.check(same_image(image((pop, evals)), before), "argument-changed", "tell has changed its arguments")
        sim.check(same_image(image(node.state), node.image), "checkpoint-changed", "tell has changed the state given to it")

        def step(i, r):
            p, e = s.at(pop, i, 2), s.at(evals, i, 1)
            if bool(torch.isnan(e).any()) or not bool(torch.isfinite(p).all()):
                raise Undefined
            if not bool(torch.isfinite(e).all()) and kind == "PGPE" and r.args.get("ranking_method") in ("raw", "normalized"):
                raise Undefined
            g = r.gradients(p, e.tolist(), maximize)
            r.update(g)

        nodes.append(Node(new, advance(sim, s, node.refs, step)))
        compare(nodes[-1])
    sim.check(same_image(image(s.args), given), "argument-changed", "the arguments of the search")


def center_in(state):
    return state["center"] if isinstance(state, dict) else state.center


def c37_functional(sim):
    s = Setup(sim)
    if sim.ch.chance(1 / 3):
        gradient_ascent(sim, s)
    else:
        search(sim, s)


# ---- samplers and estimators of gradients


DISTS = {
    "PGPE": distributions.SymmetricSeparableGaussian,
    "plain": distributions.SeparableGaussian,
    "SNES": distributions.ExpSeparableGaussian,
}


def expected_gradients(kind, mu, sigma, x, fits, maximize, method, fixed):
    """Gradients of one batch item, from their definitions."""
    state = State(mu, sigma)
    n = len(x)
    if "parenthood_ratio" in fixed:
        return gradients("CEM", state, x, fits, maximize, fixed)
    args = {"ranking_method": method, "symmetric": kind == "PGPE"}
    if kind == "SNES":
        return gradients("SNES", state, x, fits, maximize, args)
    g = gradients("PGPE", state, x, fits, maximize, args)
    w = ranks(fits, method, maximize)
    if method not in ("centered", "normalized"):
        w = w - w.mean()
    for name in g:
        by = fixed.get(f"divide_{name}_grad_by")
        g[name] = g[name] * (n // 2 if kind == "PGPE" else n)
        d = {None: 1.0, "num_solutions": n, "num_directions": n // 2, "total_weight": float(w.abs().sum()), "weight_stdev": float(w.std())}[by]
        if d < 1e-9:
            raise Undefined
        g[name] = g[name] / d
    return g


def c37_estimators(sim):
    """Stateless samplers and estimators, called over and over with other parameters and other
    batches of parameters, while the fitness function may fail."""
    ch = sim.ch
    s = Setup(sim)
    L, dtype, batch = s.L, s.dtype, s.batch
    kind = ch.pick(list(DISTS))
    cls = DISTS[kind]
    tol = TOL[dtype]
    torch.manual_seed(ch.seed())

    def tensor(pick, shape):
        n = math.prod(shape)
        return torch.tensor([pick() for _ in range(n)], dtype=dtype).reshape(shape)

    fix_sigma = ch.chance(0.3)
    names = ["mu"] if fix_sigma else ch.pick([["mu", "sigma"], ["sigma", "mu"]])
    fixed = {"sigma": tensor(lambda: ch.pick([0.5, 1.0, 2.0]), (L,))} if fix_sigma else {}
    if kind != "SNES":
        if ch.chance(0.25):
            fixed["parenthood_ratio"] = 0.5
        else:
            for name in ("mu", "sigma"):
                by = ch.pick([None, "num_solutions", "num_directions", "total_weight", "weight_stdev"])
                if by is not None:
                    fixed[f"divide_{name}_grad_by"] = by
    weights = [ch.rng_int(1, 5) for _ in range(L)]
    failing = {"now": False}

    def fitness(x):
        if failing["now"]:
            sim.fault("user_error", "fitness")
            raise InjectedError("fitness")
        return ((x - 0.3) ** 2 * torch.tensor(weights, dtype=x.dtype)).sum(-1)

    bound = ch.chance(0.5)  # is the estimator bound to a fitness function?
    sense0 = ch.pick(["min", "max", None])
    method0 = ch.pick([None, "raw", "centered", "linear", "nes", "normalized"])
    with_samples, with_fits = ch.chance(0.5), ch.chance(0.5)
    sampler_fixed = {k: v for k, v in fixed.items() if k == "sigma"}
    sampler = distributions.make_functional_sampler(cls, required_parameters=names, fixed_parameters=sampler_fixed)
    estimator = distributions.make_functional_grad_estimator(
        cls,
        required_parameters=names,
        function=fitness if bound else None,
        objective_sense=sense0,
        fixed_parameters=fixed,
        ranking_method=method0,
        return_samples=with_samples,
        return_fitnesses=with_fits,
    )
    sim.log(kind, names, sorted(fixed), batch, bound, sense0, method0)

    def one(t, i):
        return t if i == () else s.at(t, i, 1)

    noises = []

    def check_samples(x, mu, sigma, n, lead, key):
        sim.check(x.shape == lead + (n, L) and x.dtype == dtype, f"{key}-shape", lambda: f"{tuple(x.shape)} of {x.dtype}, expected {lead + (n, L)}")
        seen = set()
        for i in s.items if lead else [()]:
            mine = x[i] if i != () else x
            z = ((mine.to(F) - one(mu, i).to(F)) / one(sigma, i).to(F))
            if kind == "PGPE":
                sim.check(bool(((z[0::2] + z[1::2]).abs() < 1e-4).all()), f"{key}-mirrored", lambda: f"pairs are not mirrored: {z.tolist()}")
                z = z[0::2]
            sim.check(bool((z.abs() < 8).all()), f"{key}-range", lambda: f"noise of {z.tolist()}")
            for row in z.tolist():
                tag = tuple(round(v, 3) for v in row)
                # (with few decimals a single number may repeat)
                sim.check(L < 3 or tag not in seen, f"{key}-repeated", lambda: f"noise {tag} was drawn twice in one call")
                seen.add(tag)
            noises.extend(z.flatten().tolist())

    for _ in range(ch.rng_int(1, 4)):
        lead_mu = batch if ch.chance(0.7) else ()
        lead_sigma = batch if ch.chance(0.4) and not fix_sigma else ()
        mu = tensor(lambda: ch.rng_int(-8, 8) / 4, lead_mu + (L,))
        sigma = fixed["sigma"] if fix_sigma else tensor(lambda: ch.pick([0.5, 1.0, 2.0]), lead_sigma + (L,))
        lead = batch if (lead_mu or lead_sigma) else ()
        values = {"mu": mu, "sigma": sigma}
        values = {k: values[k] for k in names}
        before = image({**values, **fixed})
        n = 2 * ch.rng_int(2, 6)

        def call(fn, *args, **kw):
            if ch.chance(0.5):
                return fn(*args, *values.values(), **kw)
            items = list(values.items())
            if ch.chance(0.5):
                items.reverse()
            return fn(*args, **dict(items), **kw)

        # sampling
        seed = ch.seed()
        torch.manual_seed(seed)
        x = call(sampler, n)
        check_samples(x, mu, sigma, n, lead, "sample")
        after = call(sampler, n)
        sim.check(not bool((after == x).any(-1).any()) if L > 1 else True, "sample-again", "a second call has returned samples of the first")
        torch.manual_seed(seed)
        sim.check(bool((call(sampler, n) == x).all()), "sample-reproducible", "the same seed gave other samples")
        sim.probe("sampled-batch" if lead else "sampled")
        # gradients
        kw = {}
        sense, method = sense0, method0
        if sense is None or ch.chance(0.3):
            sense = kw["objective_sense"] = ch.pick(["min", "max"])
        if ch.chance(0.3):
            method = kw["ranking_method"] = ch.pick([None, "centered", "nes", "normalized"])
        if "parenthood_ratio" not in fixed and not bound and n < 4:
            n = 4
        if bound:
            if sim.faults_on and ch.chance(0.3):
                failing["now"] = True
                try:
                    call(estimator, n, **kw)
                    err = None
                except InjectedError as e:
                    err = e
                failing["now"] = False
                sim.check(err is not None, "failure-hidden", "the failure of the fitness function was hidden")
                sim.probe("failed-fitness")
            torch.manual_seed(seed)
            got = call(estimator, n, **kw)
            torch.manual_seed(seed)
            twin = call(estimator, n, **kw)
            sim.check(same_image(image(got), image(twin)), "gradients-reproducible", "the same seed gave other gradients")
            if not (with_samples or with_fits):
                sim.check(isinstance(got, dict) and set(got) == {"mu", "sigma"}, "gradients-keys", lambda: f"{got}")
                full = distributions.make_functional_grad_estimator(
                    cls, required_parameters=names, function=fitness, objective_sense=sense0, fixed_parameters=fixed,
                    ranking_method=method0, return_samples=True, return_fitnesses=True,
                )
                torch.manual_seed(seed)
                grads, (x, f) = got, tuple(call(full, n, **kw))[1:]
            else:
                sim.check(
                    hasattr(got, "samples") == with_samples and hasattr(got, "fitnesses") == with_fits,
                    "gradients-with",
                    lambda: f"returned {type(got).__name__}",
                )
                grads = got.grads
                if with_samples:
                    x = got.samples
                    f = fitness(x)
                    if with_fits:
                        sim.check(bool(((got.fitnesses - f).abs() <= 1e-5 * (1 + f.abs())).all()), "fitnesses-of-samples", "the fitnesses are not those of the samples")
                        f = got.fitnesses
                else:
                    x = None
            if x is not None:
                check_samples(x, mu, sigma, n, lead, "estimate")
        else:
            given_lead = batch if ch.chance(0.5) else ()
            lead = batch if (lead or given_lead) else ()
            x = tensor(lambda: ch.rng_int(-40, 40) / 16, given_lead + (n, L))
            if kind == "PGPE":
                d = tensor(lambda: ch.rng_int(1, 40) / 16, given_lead + (n // 2, L))
                m = mu if mu.ndim == 1 else mu.reshape(-1, L)[0]
                x = torch.stack([m + d, m - d], dim=-2).reshape(given_lead + (n, L))
                if lead_mu:
                    x = None  # (pairs are mirrored about one center only)
            if x is not None:
                f = fitness(x) + 0.001 * torch.arange(n, dtype=dtype)
                if sim.faults_on and ch.chance(0.2):
                    try:
                        call(estimator, x, f[..., :-1], **kw)
                        err = None
                    except Exception as e:
                        err = e
                    sim.check(isinstance(err, ValueError), "lengths", lambda: f"fitnesses of another length: {err!r}")
                got = call(estimator, x, f, **kw)
                grads = got.grads if with_samples or with_fits else got
                if with_samples:
                    sim.check(bool((got.samples == x).all()), "samples-returned", "other samples were returned")
                if with_fits:
                    sim.check(bool((got.fitnesses == f).all()), "fitnesses-returned", "other fitnesses were returned")
        if x is not None:
            for i in s.items if lead else [()]:
                xi, fi = s.at(x, i, 2) if lead else x, s.at(f, i, 1) if lead else f
                try:
                    want = expected_gradients(kind, one(mu, i), one(sigma, i), xi, fi, sense == "max", method, fixed)
                except Undefined:
                    continue
                scale = 1 + float(((xi - one(mu, i)).abs().max() / one(sigma, i).min() + 1) ** 2) * (1 + (float(fi.abs().max()) if method in (None, "raw") else 1.0)) * n
                for name, w in want.items():
                    g = grads[name][i] if lead else grads[name]
                    sim.check(g.shape == w.shape and g.dtype == dtype, "gradient-shape", lambda: f"{name}: {tuple(g.shape)} of {g.dtype}")
                    dev = float((g.to(F) - w).abs().max())
                    sim.check(dev <= tol * 0.2 * scale, "gradient", lambda: f"{kind} {method} {sense} {name}: {g.tolist()} instead of {w.tolist()}")
                sim.probe("gradient-checked")
        sim.check(same_image(image({**values, **fixed}), before), "argument-changed", "the parameters were changed")
        if ch.chance(0.2) and len(names) == 2:
            a, b = names
            try:
                sampler(n, values[a], **{b: values[b]})
                err = None
            except Exception as e:
                err = e
            sim.check(isinstance(err, TypeError), "mixed-arguments", lambda: f"positional and keyword parameters together: {err!r}")
    if len(noises) >= 150:
        z = torch.tensor(noises, dtype=F)
        n = len(z)
        sim.check(abs(float(z.mean())) < 6 / math.sqrt(n), "noise-mean", lambda: f"mean of {n} draws is {float(z.mean())}")
        sim.check(abs(float((z**2).mean()) - 1) < 6 * math.sqrt(2 / n) * 1.5, "noise-spread", lambda: f"mean square of {n} draws is {float((z**2).mean())}")
