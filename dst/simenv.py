"""Simulated reinforcement learning environments whose every reset and step is recorded.

What happened to the environments of a run is the list `log(sim)` of events
    ("new", proc, uid) ("reset", proc, uid, episode) ("step", proc, uid, episode, t)
where an `Episode` holds the observations handed out, the actions received and the rewards."""

import zlib

import gymnasium as gym
import numpy as np
import torch
from gymnasium.spaces import Box, Discrete
from torch import nn

from . import kernel, work

IDENT = 1000.0  # bound of the action component which carries the identity of the policy


def log(sim):
    return sim.state.setdefault("envlog", [])


class Episode:
    def __init__(self, uid, proc):
        self.uid, self.proc = uid, proc
        self.obs, self.actions, self.rewards = [], [], []
        self.over = False
        self.key = None  # the policy parameters that act (if known)
        self.keys = set()
        self.training = False  # whether a policy acted while being in training mode

    def __len__(self):
        return len(self.rewards)


class SimEnv(gym.Env):
    """Observations, rewards and episode lengths come from a generator of its own.

    obs, act: sizes; discrete: number of discrete actions (0: continuous); limit: episodes have
    1..limit steps; offset, scale: of the observations; reuse: hand out the same array each time;
    ident: the last component of a continuous action is wide enough to carry an identity;
    classic: answer as the environments of the classic gym library do."""

    metadata = {"render_modes": ["human"]}

    def __init__(
        self, obs=2, act=1, discrete=0, limit=5, offset=0.0, scale=1.0, reuse=False, ident=False, salt=0,
        whole=False, info=0, int_obs=False, classic=False, render_mode=None,
    ):
        sim = kernel.current()
        self.uid = sim.state["env_uid"] = sim.state.get("env_uid", -1) + 1
        self.render_mode, self.classic = render_mode, classic
        self.rng = np.random.RandomState(zlib.crc32(f"{salt}/{self.uid}".encode()))
        self.given_seed = None
        self.n_obs, self.limit, self.offset, self.scale = obs, limit, offset, scale
        self.reuse, self.whole, self.info_kind, self.int_obs = reuse, whole, info, int_obs
        if int_obs:
            self.observation_space = Box(-1000, 1000, (obs,), np.int64)
        else:
            self.observation_space = Box(-np.inf, np.inf, (obs,), np.float32)
        if discrete:
            self.action_space = Discrete(discrete)
        else:
            low, high = np.linspace(-0.6, -0.3, act), np.linspace(0.4, 0.9, act)
            if ident:
                low, high = np.append(low, -IDENT), np.append(high, IDENT)
            self.action_space = Box(low.astype(np.float32), high.astype(np.float32), dtype=np.float32)
        self.discrete = discrete
        self.buffer = np.zeros(obs, dtype=self.observation_space.dtype)
        self.episode = None
        self.closed = False
        log(sim).append(("new", sim.proc, self.uid))

    def observe(self):
        x = self.rng.standard_normal(self.n_obs) * self.scale + self.offset
        if self.int_obs:
            x = np.round(x * 3)
        x = x.astype(self.observation_space.dtype)
        self.episode.obs.append(x.copy())
        if self.reuse:
            self.buffer[:] = x
            return self.buffer
        return x

    def note(self):
        k = self.info_kind
        if k == 0 or (k == 3 and self.rng.randint(0, 2)):
            return {}
        d = {"uid": self.uid, "t": len(self.episode), "vec": np.arange(2.0) + self.uid}
        if k == 2:
            d["name"] = f"env{self.uid}"
        return d

    def reset(self, *, seed=None, options=None):
        sim = kernel.current()
        sim.check(not self.closed, "use-after-close", "a closed environment was reset")
        if seed is not None:
            self.given_seed = int(seed)
            self.rng = np.random.RandomState(int(seed) % (2**32))
        self.episode = Episode(self.uid, sim.proc)
        self.episode.seed = seed
        self.length = self.limit if self.whole else int(self.rng.randint(1, self.limit + 1))
        log(sim).append(("reset", sim.proc, self.uid, self.episode))
        work.may_fail("the environment fails at its reset")
        if self.classic:
            return self.observe()
        return self.observe(), self.note()

    def step(self, action):
        sim = kernel.current()
        ep = self.episode
        sim.check(ep is not None and not ep.over, "step-after-end", "an environment was stepped although its episode is over")
        sim.check(not self.closed, "use-after-close", "a closed environment was stepped")
        if self.discrete:
            sim.check(
                np.ndim(action) == 0 and int(action) == action and 0 <= int(action) < self.discrete,
                "invalid-action",
                lambda: f"the environment received the action {action!r}",
            )
            a = int(action)
        else:
            a = np.array(action, dtype=np.float64)
            sp = self.action_space
            sim.check(
                a.shape == sp.shape and bool(np.all(a >= sp.low) and np.all(a <= sp.high)),
                "invalid-action",
                lambda: f"the environment received the action {a} outside of [{sp.low}, {sp.high}]",
            )
        work.may_fail("the environment fails at a step")
        ep.actions.append(a)
        acting = sim.state.get("acting")
        if acting is not None and acting[0] == sim.proc:
            ep.keys.add(acting[1])
            ep.key = acting[1]
            ep.training = ep.training or acting[2]
        drive = float(np.sum(a if self.discrete else a[:1]))
        reward = float(np.float32(self.rng.standard_normal() + 0.5 * drive))
        ep.rewards.append(reward)
        log(sim).append(("step", sim.proc, self.uid, ep, len(ep)))
        terminated = truncated = False
        if len(ep) >= self.length:
            terminated = bool(self.rng.randint(0, 2))
            truncated = not terminated or bool(self.rng.randint(0, 2))
            ep.over = True
        obs = self.observe()
        ep.last = (terminated, truncated)
        if self.classic:
            return obs, reward, terminated or truncated, self.note()
        return obs, reward, terminated, truncated, self.note()

    def render(self):
        sim = kernel.current()
        sim.probe("rendered")
        log(sim).append(("render", sim.proc, self.uid))

    def close(self):
        self.closed = True


class SimVec(gym.vector.VectorEnv):
    """A vectorized environment of the user's: same-step automatic resets, for ever."""

    def __init__(self, num_envs, torches=False, classic=False, double=False, dones=bool, **cfg):
        self.envs = [SimEnv(**cfg) for _ in range(num_envs)]
        self.classic, self.dones = classic, dones
        if classic:
            self.seed = self.note_seed
        self.num_envs = num_envs
        self.torches, self.double = torches, double
        self.single_observation_space = self.envs[0].observation_space
        self.single_action_space = self.envs[0].action_space
        self.observation_space = gym.vector.utils.batch_space(self.single_observation_space, num_envs)
        self.action_space = gym.vector.utils.batch_space(self.single_action_space, num_envs)
        sim = kernel.current()
        sim.state.setdefault("vec_sizes", []).append((sim.proc, num_envs))

    def out(self, x):
        x = np.stack([np.array(v) for v in x]) if not isinstance(x, np.ndarray) else x
        return torch.as_tensor(x) if self.torches else x

    def reset(self, *, seed=None, options=None):
        sim = kernel.current()
        log(sim).append(("vecreset", sim.proc))
        obs = self.out([e.reset()[0] for e in self.envs])
        return obs if self.classic else (obs, {})

    def note_seed(self, seed):
        sim = kernel.current()
        sim.state.setdefault("vec_seeds", []).append((sim.proc, seed))

    def step(self, actions):
        a = actions.cpu().numpy() if isinstance(actions, torch.Tensor) else np.asarray(actions)
        obs, rew, ter, tru = [], [], [], []
        for e, x in zip(self.envs, a):
            o, r, te, tr, _ = e.step(x)
            if te or tr:
                o, _ = e.reset()
            obs.append(np.array(o)), rew.append(r), ter.append(te), tru.append(tr)
        rew = np.array(rew, dtype=np.float64 if self.double else np.float32)
        ter, tru = np.array(ter), np.array(tru)
        if self.classic:
            return self.out(obs), self.out(rew), self.out((ter | tru).astype(self.dones)), {}
        return self.out(obs), self.out(rew), self.out(ter.astype(self.dones)), self.out(tru.astype(self.dones)), {}

    def close_extras(self, **kwargs):
        for e in self.envs:
            e.close()


def make_vec(num_envs, **cfg):
    return SimVec(num_envs, **cfg)


gym.register(id="DstSim-v0", entry_point=SimEnv, disable_env_checker=True, order_enforce=False)


# ------------------------------------------------------------------------------- policies


class Net(nn.Module):
    """Recurrent or not; optionally with an output that only depends on the parameters.

    With recurrent="own", the network keeps its hidden state by itself (like LocomotorNet its time).
    """

    def __init__(self, obs, act, recurrent=False, ident=False, noting=False, hidden=2, tame=True):
        super().__init__()
        self.inp = nn.Linear(obs, hidden)
        self.rec = nn.Linear(hidden, hidden, bias=False) if recurrent else None
        self.outp = nn.Linear(hidden, act)
        self.ident = nn.Parameter(torch.zeros(1)) if ident else None
        self.noting = noting
        self.own = recurrent == "own"
        self.reset()

    def reset(self):
        self.kept = None

    def forward(self, x, h=None):
        if self.noting:
            sim = kernel.current()
            key = tuple(nn.utils.parameters_to_vector(self.parameters()).tolist())
            sim.state["acting"] = (sim.proc, key, self.training)
        y = self.inp(x)
        if self.own:
            h = self.kept
        if self.rec is not None and h is not None:
            y = y + self.rec(h)
        y = torch.tanh(y)
        out = self.outp(y)
        if self.ident is not None:
            out = torch.cat([out, self.ident.expand(out.shape[:-1] + (1,))], dim=-1)
        if self.own:
            self.kept = y
        elif self.rec is not None:
            return out, y
        return out


class Reference:
    """The same function, computed apart in double precision."""

    def __init__(self, net, flat):
        self.p = {}
        i = 0
        flat = np.asarray(flat, dtype=np.float64)
        for name, v in net.named_parameters():
            n = v.numel()
            self.p[name] = flat[i : i + n].reshape(tuple(v.shape))
            i += n
        self.reset()

    def reset(self):
        self.h = None

    def __call__(self, x):
        p = self.p
        y = p["inp.weight"] @ np.asarray(x, dtype=np.float64) + p["inp.bias"]
        if "rec.weight" in p and self.h is not None:
            y = y + p["rec.weight"] @ self.h
        y = np.tanh(y)
        self.h = y
        out = p["outp.weight"] @ y + p["outp.bias"]
        if "ident" in p:
            out = np.append(out, p["ident"])
        return out


class Stats:
    """Reference observation statistics."""

    MIN_VARIANCE = 1e-2

    def __init__(self, count=0, total=0.0, squares=0.0):
        self.count, self.total, self.squares = count, total, squares

    def copy(self):
        return Stats(self.count, np.array(self.total), np.array(self.squares))

    def add(self, x):
        x = np.asarray(x, dtype=np.float64)
        self.count += 1
        self.total = self.total + x
        self.squares = self.squares + x * x

    def join(self, other, since):
        """Add what `other` has collected since it was a copy of `since`."""
        self.count += other.count - since.count
        self.total = self.total + (other.total - since.total)
        self.squares = self.squares + (other.squares - since.squares)

    @property
    def mean(self):
        return self.total / self.count

    @property
    def stdev(self):
        var = self.squares / self.count - self.mean**2
        return np.sqrt(np.maximum(var, self.MIN_VARIANCE))

    def normalize(self, x):
        if self.count == 0:
            return np.asarray(x, dtype=np.float64)
        return (np.asarray(x, dtype=np.float64) - self.mean) / self.stdev
