"""How the kinds of problems which ship with the library cut their work: C02."""

import math

import torch

from evotorch.decorators import pass_info
from evotorch.neuroevolution import GymNE, NEProblem, SupervisedNE, VecGymNE

from .. import kernel, simenv, work
from ..work import row_key, splitting
from .evaluation import draw_cluster, near_equal
from .nets import Line, Numbers


class Pieces:
    """Records every piece of work."""

    def _evaluate_batch(self, batch):
        work.record(kernel.current(), "piece", tuple(row_key(x) for x in batch.values))
        return super()._evaluate_batch(batch)


class PiecesOfNet(Pieces, NEProblem):
    pass


class PiecesOfLesson(Pieces, SupervisedNE):
    pass


class PiecesOfGym(Pieces, GymNE):
    pass


class PiecesOfVecGym(Pieces, VecGymNE):
    pass


def weight(net):
    return float(sum((p.detach() ** 2).sum() for p in net.parameters()))


@pass_info
def one_layer(obs_length, act_length, obs_space, act_space, obs_shape, act_shape):
    sim = kernel.current()
    sim.check(
        tuple(obs_shape) == (obs_length,) == obs_space.shape and tuple(act_shape) == (act_length,) == act_space.shape,
        "network-constants",
        lambda: f"observations {obs_length} {obs_shape} {obs_space}, actions {act_length} {act_shape} {act_space}",
    )
    return torch.nn.Linear(obs_length, act_length)


def plain_loss(y_hat, y):
    return torch.mean((y_hat - y) ** 2)


def c02_kinds(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    cl.arm(3, stall=0.15)
    kind = ch.pick(["net", "lesson", "gym", "vecgym"])
    cpu = ch.rng_int(1, 5)
    cl.resources = {"CPU": float(cpu), "memory": 1e9}
    na = ch.pick([0, 2, 3, "max", "num_cpus", 4, "num_gpus", "num_devices"])
    gpu = share = None
    if ch.chance(0.4) or na in ("num_gpus", "num_devices"):
        gpu = ch.rng_int(1, 4)
        cl.resources["GPU"] = float(gpu)
    if na == "num_gpus":
        want, share = gpu, 1
    elif na == "num_devices":
        want, share = min(cpu, gpu), 1
    else:
        want = cpu if isinstance(na, str) else na
    if want == 1:
        want = 0
    cut = splitting(sim, ch, want)
    kw = dict(num_actors=na, **cut)
    config = None
    if ch.chance(0.3):
        config = kw["actor_config"] = {"num_cpus": 2}
    elif gpu and want and share is None and kind != "gym" and ch.chance(0.6):
        kw["num_gpus_per_actor"] = share = ch.pick([0.25, 1, "max"])
        if share == "max":
            share = gpu / want
    bounds = ch.pick([(-1.0, 1.0), (2.0, 3.0)])
    if kind == "net":
        p = PiecesOfNet("min", "Linear(2, 1)", weight, initial_bounds=bounds, **kw)
    elif kind == "lesson":
        p = PiecesOfLesson(Numbers(4), Line, plain_loss, minibatch_size=2, initial_bounds=bounds, **kw)
    else:
        # the sizes are known to the description of the network
        env = dict(obs=ch.rng_int(1, 3), act=ch.rng_int(1, 2), limit=3)
        if kind == "gym" or not want:
            env["discrete"] = ch.pick([0, 0, 3])
        ins, outs = env["obs"], env.get("discrete") or env["act"]
        form = ch.draw(4)
        if form == 0:
            network = "Linear(obs_length, act_length)"
        elif form == 1:
            network = "Linear(obs_shape[0], act_shape[0])"
        elif form == 2:
            network = one_layer
        else:
            network = "Linear(obs_length, act_length, bias=b)"
            kw["network_args"] = {"b": False}
        cls = PiecesOfGym if kind == "gym" else PiecesOfVecGym
        if kind == "vecgym":
            bounds = (-0.00001, 0.00001)  # the only choice there
        else:
            kw["initial_bounds"] = bounds
        maker = "DstSim-v0"
        if kind == "gym" and ch.chance(0.3):
            p = cls(env_name=maker, network=network, env_config=env, **kw)
        else:
            p = cls(maker, network, env_config=env, **kw)
        size = ins * outs + (0 if form == 3 else outs)
        sim.check(p.solution_length == size, "network-size", lambda: f"{p.solution_length} parameters, expected {size} ({ins} to {outs}, form {form})")
    sim.log(kind, na, want, sorted(cut.items()), share, bounds)
    for rnd in range(ch.rng_int(1, 3)):
        n = ch.rng_int(1, 11)
        batch = p.generate_batch(n)
        v = torch.as_tensor(batch.values)
        sim.check(
            bool(((v >= bounds[0]) & (v <= bounds[1])).all()), "initial-bounds", lambda: f"values between {v.min()} and {v.max()} instead of {bounds}"
        )
        mark = len(sim.ledger)
        emark = len(simenv.log(sim))
        p.evaluate(batch)
        pieces = [r for r in sim.ledger[mark:] if r[0] == "piece" and r[2]]
        sizes = sorted(len(r[2]) for r in pieces)
        sim.check(p.num_actors == want, "num-actors", lambda: f"num_actors is {p.num_actors}, {want} were requested")
        sim.check(len(cl.actors) == want, "workers-created", lambda: f"{len(cl.actors)} workers were created so far, {want} are wanted")
        sim.check(
            sorted(k for r in pieces for k in r[2]) == sorted(row_key(x) for x in batch.values),
            "work-lost",
            lambda: f"pieces {sizes} for {n} solutions",
        )
        sim.check(not bool(torch.isnan(torch.as_tensor(batch.evals)).any()), "unevaluated", "not every solution was evaluated")
        procs = {r[1] for r in pieces} | {e[1] for e in simenv.log(sim)[emark:] if e[0] == "step"}
        if want == 0:
            sim.check(procs == {"main"} and sizes == [n], "left-main", lambda: f"pieces {sizes} in {procs}")
            continue
        sim.check("main" not in procs, "in-main", "work was done in the main process")
        if "num_subbatches" in cut:
            exp = [s for s in near_equal(n, cut["num_subbatches"]) if s]
            sim.check(sizes == exp, "num-subbatches", lambda: f"{n} solutions were cut into {sizes}, not {exp}")
        elif "subbatch_size" in cut:
            m = cut["subbatch_size"]
            sim.check(max(sizes) <= m, "subbatch-size", lambda: f"a piece of {max(sizes)} exceeds {m}")
            sim.check(len(sizes) == math.ceil(n / m), "subbatch-count", lambda: f"{n} by {m} gives pieces {sizes}")
        else:
            exp = [s for s in near_equal(n, want) if s]
            sim.check(sizes == exp, "per-worker-pieces", lambda: f"{n} solutions were cut into {sizes}, not {exp}")
        if share is not None:
            for a in cl.actors:
                g = a.options.get("num_gpus")
                sim.check(g is not None and abs(g - share) < 1e-9, "gpu-share", lambda: f"num_gpus={g}, not {share}")
        if config is not None:
            for a in cl.actors:
                sim.check(a.options.get("num_cpus") == 2, "actor-config", lambda: f"options {a.options}")
        sim.probe("cut-" + kind)
