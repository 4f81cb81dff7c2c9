"""Searches on neuroevolution problems, reproduced and resumed: C06 C15."""

import gymnasium as gym
import numpy as np
import torch
from gymnasium.spaces import Box, Discrete

from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm
from evotorch.neuroevolution import GymNE, NEProblem, VecGymNE
from evotorch.operators import GaussianMutation, TwoPointCrossOver

from .. import simray, work
from ..algs import freeze, snapshot
from ..work import plain, splitting
from .evaluation import draw_cluster
from .search import compare, disturb, noisy_steps, resume


class SteadyEnv(gym.Env):
    """What happens depends on the actions of the episode, and on nothing else."""

    def __init__(self, discrete=0, limit=5, render_mode=None):
        self.observation_space = Box(-np.inf, np.inf, (2,), np.float32)
        self.action_space = Discrete(discrete) if discrete else Box(-1.0, 1.0, (1,), np.float32)
        self.discrete, self.limit = discrete, limit

    def look(self):
        return np.array([self.x, self.t * 0.5 - 1.0], dtype=np.float32)

    def reset(self, *, seed=None, options=None):
        work.may_fail("the environment fails at its reset")
        self.x, self.t = 0.25, 0
        return self.look(), {}

    def step(self, action):
        work.may_fail("the environment fails at a step")
        a = int(action) - 1.0 if self.discrete else float(np.asarray(action).reshape(-1)[0])
        self.t += 1
        self.x = self.x * 0.75 + a
        return self.look(), float(a * 0.5 - self.x * self.x), bool(self.t >= self.limit or self.x > 2.0), False, {}


gym.register(id="DstSteady-v0", entry_point=SteadyEnv, disable_env_checker=True, order_enforce=False)


class Weigh:
    def __call__(self, net):
        work.may_fail("the evaluation of a network fails")
        with torch.no_grad():
            return torch.sum(torch.abs(net(torch.tensor([[0.5, -1.0], [2.0, 0.25]]))))


def draw(sim, steps):
    """How the problem and the search are set up; returns (name, workers, start)."""
    ch = sim.ch
    kind = ch.pick(["gym", "gym", "vec", "net"])
    na = ch.pick([0, 0, 2, 3])
    norm = kind != "net" and na == 0 and ch.chance(0.6)
    noise = ch.pick([None, 0.1]) if kind == "gym" and na == 0 else None
    discrete = ch.pick([0, 0, 3]) if not (kind == "vec" and na) else 0
    recurrent = ch.chance(0.3) and kind != "net"
    cut = splitting(sim, ch, na) if na else {}
    seed = ch.draw(1000)
    out = discrete or 1
    net = f"RNN(2, 2) >> Linear(2, {out})" if recurrent else f"Linear(2, 2) >> Tanh() >> Linear(2, {out})" if ch.chance(0.5) else f"Linear(2, {out})"
    kw = dict(num_episodes=ch.rng_int(1, 2), observation_normalization=norm, env_config=dict(discrete=discrete, limit=ch.rng_int(1, 5)))
    if kind == "gym":
        kw["action_noise_stdev"] = noise
        kw["episode_length"] = ch.pick([None, None, 2])
    if kind != "net":
        kw["alive_bonus_schedule"] = ch.pick([None, (2, 0.5)])
        kw["decrease_rewards_by"] = ch.pick([None, 0.25])
    if kind == "vec" and not discrete:
        kw["max_num_envs"] = ch.pick([None, None, max(na, 1) + 1])
    alg = ch.pick(["SNES", "PGPE", "CEM", "XNES", "CMAES", "Cosyne", "GA"])
    popsize = ch.pick([4, 6, 7, 9]) if alg != "PGPE" else ch.pick([4, 6])
    adaptive = kind != "net" and alg in ("SNES", "PGPE", "CEM") and ch.chance(0.3)
    opt = ch.pick(["clipup", "adam", None])
    sim.log("conf", kind, na, sorted(cut.items()), seed, net, sorted((k, repr(v)) for k, v in kw.items()), alg, popsize, adaptive, opt)
    sim.probe("on-" + kind)
    sim.probe("alg-" + alg)
    if norm:
        sim.probe("normalized")

    def start():
        if kind == "net":
            p = NEProblem("min", net, Weigh(), num_actors=na, seed=seed, **cut)
        else:
            p = (GymNE if kind == "gym" else VecGymNE)("DstSteady-v0", net, num_actors=na, **kw, **cut)
            p.manual_seed(seed)
        more = dict(num_interactions=popsize * 6, popsize_max=popsize * 3) if adaptive else {}
        if alg == "SNES":
            return SNES(p, popsize=popsize, stdev_init=0.5, **more)
        if alg == "PGPE":
            return PGPE(p, popsize=popsize, stdev_init=0.5, center_learning_rate=0.3, stdev_learning_rate=0.1, optimizer=opt, **more)
        if alg == "CEM":
            return CEM(p, popsize=popsize, parenthood_ratio=0.5, stdev_init=0.5, **more)
        if alg == "XNES":
            return XNES(p, popsize=popsize, stdev_init=0.5)
        if alg == "CMAES":
            return CMAES(p, popsize=popsize, stdev_init=0.5)
        if alg == "Cosyne":
            return Cosyne(p, popsize=popsize, tournament_size=2, mutation_stdev=0.3)
        ops = [TwoPointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.2)]
        return GeneticAlgorithm(p, operators=ops, popsize=popsize)

    return f"{alg} on {kind}", na, start


def view(alg):
    d = snapshot(alg)
    p = alg.problem
    if getattr(p, "observation_normalization", False):
        st = p.get_observation_stats()
        d["observations"] = int(st.count)
        if st.count >= 2:
            d["obs_mean"], d["obs_stdev"] = freeze(torch.as_tensor(st.mean)), freeze(torch.as_tensor(st.stdev))
    return d


def c15_neuro(sim):
    draw_cluster(sim)
    steps = sim.ch.rng_int(1, 4)
    name, na, start = draw(sim, steps)
    resume(sim, start, steps, name, na, view=view)


def c06_neuro(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    cl.arm(2, stall=0.1)
    steps = ch.rng_int(1, 4)
    name, na, start = draw(sim, steps)
    ref = noisy_steps(sim, start(), steps, quiet=True, view=view)
    for _ in range(ch.rng_int(1, 2)):
        simray.set_rng(simray.fresh_rng(ch.seed()))
        if sim.faults_on:
            disturb(sim)
        alg = start()
        got = noisy_steps(sim, alg, steps, view=view)
        compare(sim, ref, got, 0, "not-reproducible", name)
