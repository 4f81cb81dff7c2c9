"""Reinforcement learning problems: C08 C09 C10 C11 C12 C13 C28 C29."""

import copy
import os
import pathlib
import pickle

import numpy as np
import torch

from evotorch import Solution
from evotorch.algorithms import PGPE, SNES
from evotorch.neuroevolution import GymNE, VecGymNE
from evotorch.neuroevolution.net import MultiLayered

from .. import simdisk, simenv, work
from ..kernel import InjectedError, SimCrash
from ..simenv import Net, Reference, SimEnv, SimVec, Stats, make_vec
from ..work import arm_user_failures, disarm_user_failures, plain, row_key, splitting, user_failures
from .dist import batches_needed
from .evaluation import OUTAGES, draw_cluster

TOL = 3e-3


def near(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(a) + np.abs(b))))


def content(fname):
    if not os.path.exists(fname):
        return None
    with open(fname, "rb") as f:
        return f.read()


class Conf:
    """How the problem is set up."""

    def __init__(self, sim, vec, norm=None, noise=False, own=False):
        ch = sim.ch
        self.vec = vec
        self.na = ch.pick([0, 0, 2, 3])
        self.discrete = ch.pick([0, 0, 3, 2])
        if vec and self.na:
            self.discrete = 0
        self.n_obs = ch.rng_int(1, 3)
        self.n_act = self.discrete or ch.rng_int(1, 2)
        self.recurrent = ch.chance(0.4)
        if own and self.recurrent and ch.chance(0.4):
            self.recurrent = "own"
        self.norm = ch.chance(0.5) if norm is None else norm
        self.ne = ch.rng_int(1, 3)
        self.decrease = ch.pick([None, None, 0.25, -0.5])
        self.alive = ch.pick([None, None, (2, 1.5), (0, 0.5), (1, 3, 2.0), (2, 6, -1.0)])
        self.noise = ch.pick([0.1, 0.5]) if noise and ch.chance(0.3) else None
        if self.noise and vec:
            self.na = 0  # the noise hides the identities
        self.cut = splitting(sim, ch, self.na) if self.na else {}
        self.ident = vec and not self.discrete
        self.env = dict(
            obs=self.n_obs,
            act=self.n_act,
            discrete=self.discrete,
            limit=ch.rng_int(1, 6),
            offset=ch.pick([0.0, 3.0, -2.0]),
            scale=ch.pick([1.0, 2.0, 0.05]),
            reuse=ch.chance(0.3),
            ident=self.ident,
            salt=ch.draw(10000),
            whole=ch.chance(0.2),
            int_obs=ch.chance(0.15),
        )
        self.length = None if vec else ch.pick([None, None, 1, 3, 5])
        self.named = ch.chance(0.5)
        self.max_envs = None
        if vec and not self.discrete and not self.noise and ch.chance(0.5):
            self.max_envs = ch.rng_int(max(1, self.na), 7)
        self.own_vec = vec and not self.named
        self.classic = not self.named and ch.chance(0.25)
        if self.classic and not vec:
            self.env["classic"] = True

    def net(self):
        return Net(self.n_obs, self.n_act, self.recurrent, ident=self.ident, noting=not self.vec)

    def make(self, sim):
        ch = sim.ch
        kw = dict(
            env_config=self.env,
            observation_normalization=self.norm,
            num_episodes=self.ne,
            decrease_rewards_by=self.decrease,
            alive_bonus_schedule=self.alive,
            action_noise_stdev=self.noise,
            num_actors=self.na,
            **self.cut,
        )
        net = self.net()
        if ch.chance(0.5):
            network, kw["network_args"] = Net, dict(
                obs=self.n_obs, act=self.n_act, recurrent=self.recurrent, ident=self.ident, noting=not self.vec
            )
        else:
            network = MultiLayered(net) if not self.vec and ch.chance(0.3) else net
        sim.log("conf", self.vec, self.na, self.discrete, self.recurrent, self.norm, self.ne, self.decrease, self.alive,
                self.noise, self.cut, self.length, self.named, self.max_envs, sorted(self.env.items()))
        if not self.vec:
            env = "DstSim-v0" if self.named else SimEnv
            return GymNE(env, network, episode_length=self.length, **kw)
        if self.own_vec:
            kw["env_config"] = dict(
                self.env, torches=ch.chance(0.4), classic=self.classic, dones=ch.pick([bool, bool, np.float32, np.int64])
            )
        env = "DstSim-v0" if self.named else (make_vec if ch.chance(0.5) else SimVec)
        return VecGymNE(env, network, max_num_envs=self.max_envs, **kw)

    def bonus(self, t):
        if self.alive is None:
            return 0.0
        if len(self.alive) == 2:
            return self.alive[1] if t >= self.alive[0] else 0.0
        t0, t1, b = self.alive
        if t >= t1:
            return b
        return b * (t - t0) / (t1 - t0) if t >= t0 else 0.0

    def score(self, ep):
        return sum(r - (self.decrease or 0.0) + self.bonus(t) for t, r in enumerate(ep.rewards, 1))

    def applied(self, out):
        """The action which the environment has to receive."""
        if self.discrete:
            return out
        low, high = np.linspace(-0.6, -0.3, self.n_act), np.linspace(0.4, 0.9, self.n_act)
        if self.ident:
            low, high = np.append(low, -simenv.IDENT), np.append(high, simenv.IDENT)
        return np.clip(out, low, high)

    def agrees(self, out, action):
        if self.discrete:
            return out[action] >= out.max() - 2 * TOL * (1 + np.abs(out).max())
        return near(self.applied(out), action)


class Known:
    """What is known about one problem object."""

    def __init__(self, p):
        self.p = p
        self.stats = Stats()
        self.steps = self.episodes = 0  # of the successful evaluations
        self.extra_steps = self.extra_episodes = self.extra_obs = 0  # of the failed ones
        self.vague = False  # data of a failed evaluation is possibly on its way
        self.fresh = Stats()  # what was collected since it was last asked for (None: not known)

    def twin(self, p):
        o = Known(p)
        o.stats = self.stats.copy()
        o.fresh = None if self.fresh is None else self.fresh.copy()
        o.steps, o.episodes = self.steps, self.episodes
        o.extra_steps, o.extra_episodes, o.extra_obs = self.extra_steps, self.extra_episodes, self.extra_obs
        o.vague = self.vague
        return o


class Group:
    """The joint evaluation of some solutions in a vectorized environment."""

    def __init__(self):
        self.rounds = [[]]
        self.eps = {}


def vec_groups(events, ne, own):
    groups, cur, fresh, last = [], None, True, -1
    for e in events:
        if e[0] == "new":
            fresh = True
            continue
        if e[0] == "vecreset":
            fresh = True
            continue
        if e[0] != "step":
            continue
        uid, ep, t = e[2:]
        eps = None if cur is None else cur.eps.get(uid)
        if not fresh and not own and eps is not None:
            if ep is not eps[-1] and (not eps[-1].over or len(eps) >= ne):
                fresh = True
        if fresh or cur is None:
            cur = Group()
            groups.append(cur)
            fresh, last = False, -1
        elif uid <= last:
            cur.rounds.append([])
        cur.rounds[-1].append((uid, ep, t))
        eps = cur.eps.setdefault(uid, [])
        if not eps or eps[-1] is not ep:
            eps.append(ep)
        last = uid
    return groups


class Review:
    """What an evaluation has done according to the record of the environments."""

    def __init__(self):
        self.steps = self.episodes = 0
        self.by_key = {}  # solution -> episodes
        self.stats = None
        self.sizes = {}  # process -> largest number of environments used together
        self.observations = 0
        self.noises = []


def per_proc(events):
    d = {}
    for e in events:
        d.setdefault(e[1], []).append(e)
    return d


def review_gym(sim, conf, events, base, update=True):
    r = Review()
    r.stats = base.copy()
    net = conf.net()
    for proc, evs in per_proc(events).items():
        st = base.copy()
        eps = [e[3] for e in evs if e[0] == "reset" and len(e[3]) > 0]
        for ep in eps:
            sim.check(len(ep.keys) == 1, "mixed-policies", lambda: f"an episode was played by {len(ep.keys)} policies")
            sim.check(
                ep.over or (conf.length is not None and len(ep) == conf.length),
                "episode-cut-short",
                lambda: f"an episode was left after {len(ep)} steps (episode_length={conf.length})",
            )
            sim.check(
                conf.length is None or len(ep) <= conf.length,
                "episode-too-long",
                lambda: f"an episode had {len(ep)} steps (episode_length={conf.length})",
            )
            sim.check(not ep.training, "training-mode", "a policy was evaluated in its training mode")
            r.by_key.setdefault(ep.key, []).append(ep)
            r.steps += len(ep)
            r.episodes += 1
            r.observations += len(ep) + 1
            ref = Reference(net, ep.key)
            for t, a in enumerate(ep.actions):
                if conf.norm and update:
                    st.add(ep.obs[t])
                x = st.normalize(ep.obs[t]) if conf.norm else ep.obs[t]
                out = ref(x)
                if conf.noise is None:
                    sim.check(
                        conf.agrees(out, a),
                        "wrong-action",
                        lambda: f"step {t} in {proc}: the environment got {a}, the policy says {conf.applied(out)}"
                        f" (observation {ep.obs[t]} -> {x})",
                    )
                elif not conf.discrete:
                    r.noises += list(noise_in(conf, out, a))
            if conf.norm and update:
                st.add(ep.obs[-1])
        r.stats.join(st, base)
    return r


def noise_in(conf, out, a):
    """Noise visible in the action components which are clipped beyond half a standard deviation only."""
    low, high = np.linspace(-0.6, -0.3, conf.n_act), np.linspace(0.4, 0.9, conf.n_act)
    for i in range(conf.n_act):
        if low[i] + 0.52 * conf.noise < out[i] < high[i] - 0.52 * conf.noise:
            yield (a[i] - out[i]) / conf.noise


def review_vec(sim, conf, events, base, values):
    """`values`: the solutions of the batch (rows of numbers)."""
    r = Review()
    r.stats = base.copy()
    net = conf.net()
    keys = [tuple(v) for v in values]
    by_ident = {}
    if conf.ident:
        at = 0
        for name, v in net.named_parameters():
            if name == "ident":
                break
            at += v.numel()
        by_ident = {k[at]: k for k in keys}
    for proc, evs in per_proc(events).items():
        st = base.copy()
        for g in vec_groups(evs, conf.ne, conf.own_vec):
            uids = sorted(g.eps)
            r.sizes[proc] = max(r.sizes.get(proc, 0), len(uids))
            owner = {}
            for i, uid in enumerate(uids):
                if conf.ident and conf.noise is None:
                    ident = float(np.float32(g.eps[uid][0].actions[0][-1]))
                    sim.check(ident in by_ident, "foreign-policy", lambda: f"environment {uid} was played by an unknown policy")
                    key = by_ident[ident]
                else:
                    key = keys[i] if i < len(keys) else None
                if key is not None and key not in owner.values():
                    owner[uid] = key
            for uid, key in owner.items():
                eps = g.eps[uid][: conf.ne]
                sim.check(
                    len(eps) == conf.ne and all(ep.over for ep in eps),
                    "episodes-missing",
                    lambda: f"environment {uid} finished {sum(ep.over for ep in eps)} episodes, not {conf.ne}",
                )
                r.by_key.setdefault(key, []).extend(eps)
                r.steps += sum(map(len, eps))
                r.episodes += len(eps)
                r.observations += sum(map(len, eps))
            refs = {uid: Reference(net, key) for uid, key in owner.items()}
            for rnd in g.rounds:
                acting = [(u, ep, t) for u, ep, t in rnd if u in owner and any(ep is x for x in g.eps[u][: conf.ne])]
                if conf.norm:
                    for u, ep, t in acting:
                        st.add(ep.obs[t - 1])
                for u, ep, t in acting:
                    x = st.normalize(ep.obs[t - 1]) if conf.norm else ep.obs[t - 1]
                    if t == 1:
                        refs[u].reset()
                    out = refs[u](x)
                    a = ep.actions[t - 1]
                    if conf.noise is None:
                        sim.check(
                            conf.agrees(out, a),
                            "wrong-action",
                            lambda: f"step {t} of environment {u} in {proc}: it got {a}, the policy says {conf.applied(out)}"
                            f" (observation {ep.obs[t - 1]} -> {x})",
                        )
                    elif not conf.discrete:
                        r.noises += list(noise_in(conf, out, a))
        r.stats.join(st, base)
    return r


class Session:
    def __init__(self, sim, conf, focus):
        self.sim, self.conf, self.focus = sim, conf, focus
        self.cl = draw_cluster(sim)
        self.known = [Known(conf.make(sim))]
        self.exports = []
        self.noises = []
        self.fault_mark = 0
        self.maker = np.random.RandomState(sim.ch.draw(2**16))

    # -- helpers ------------------------------------------------------------------------
    def hurt(self):
        """Did the cluster do more than being slow?"""
        return any(kind != "stall" for kind, _ in self.cl.faulted[self.fault_mark :])

    def log_mark(self):
        return len(simenv.log(self.sim))

    def events(self, mark):
        return simenv.log(self.sim)[mark:]

    def values(self, p, n):
        v = self.maker.standard_normal((n, p.solution_length)).astype(np.float32)
        if self.conf.noise is not None:
            v *= np.float32(0.25)  # actions which are rarely clipped
        return torch.as_tensor(v)

    def obs_stats(self, k):
        s = k.p.get_observation_stats()
        if s is None or s.count == 0:
            return Stats()
        return Stats(s.count, np.asarray(s.sum, dtype=np.float64), np.asarray(s.sum_of_squares, dtype=np.float64))

    def check_totals(self, k, when):
        sim, p = self.sim, k.p
        if "totals" not in self.focus:
            return
        lo = (k.steps, k.episodes)
        hi = (k.steps + k.extra_steps, k.episodes + k.extra_episodes)
        got = (p.interaction_count, p.episode_count)
        sim.check(
            lo[0] <= got[0] <= hi[0] and lo[1] <= got[1] <= hi[1],
            "wrong-totals",
            lambda: f"{when}: {got[0]} interactions and {got[1]} episodes are reported,"
            f" the environments have seen {lo[0]} and {lo[1]}" + (f" (at most {hi[0]} and {hi[1]})" if hi != lo else ""),
        )

    def check_stats(self, k, when):
        sim = self.sim
        if "stats" not in self.focus or not self.conf.norm:
            return
        got = self.obs_stats(k)
        if k.extra_obs == 0:
            sim.check(
                got.count == k.stats.count,
                "wrong-observation-count",
                lambda: f"{when}: the statistics cover {got.count} observations, the environments gave {k.stats.count}",
            )
            if got.count:
                scale = 1.0 + np.sqrt(np.abs(k.stats.squares * max(1, got.count)))
                sim.check(
                    near(got.total / scale, k.stats.total / scale, 1e-4) and near(got.squares, k.stats.squares, 1e-3),
                    "wrong-statistics",
                    lambda: f"{when}: sum {got.total} and sum of squares {got.squares}, expected {k.stats.total} and {k.stats.squares}",
                )
        else:
            sim.check(
                k.stats.count <= got.count <= k.stats.count + k.extra_obs,
                "wrong-observation-count",
                lambda: f"{when}: the statistics cover {got.count} observations, the environments gave"
                f" {k.stats.count} to {k.stats.count + k.extra_obs}",
            )

    def adopt(self, k):
        """After a failure and once nothing is on its way: the problem's own data is the base."""
        k.steps, k.episodes = k.p.interaction_count, k.p.episode_count
        k.extra_steps = k.extra_episodes = k.extra_obs = 0
        if self.conf.norm:
            k.stats = self.obs_stats(k)
        k.fresh = None
        k.vague = False

    def failed(self, k, mark):
        """An evaluation failed as it was told to."""
        sim, cl, p = self.sim, self.cl, k.p
        cl.disarm()
        disarm_user_failures(sim)
        cl.drain()
        evs = self.events(mark)
        k.extra_steps += sum(e[0] == "step" for e in evs)
        k.extra_episodes += sum(e[0] == "step" and e[3].over or e[0] == "reset" for e in evs)
        k.extra_obs += sum(e[0] in ("step", "reset") for e in evs)
        k.vague = True
        self.check_totals(k, "after a failed evaluation")
        self.check_stats(k, "after a failed evaluation")
        if self.conf.na:
            if self.hurt() or sim.ch.chance(0.6):
                p.kill_actors()
                self.check_totals(k, "after the workers were dropped")
                self.check_stats(k, "after the workers were dropped")
                self.adopt(k)
        else:
            self.adopt(k)

    # -- operations ---------------------------------------------------------------------
    def evaluate(self, k, faults=False):
        sim, ch, conf, p, cl = self.sim, self.sim.ch, self.conf, k.p, self.cl
        n = ch.rng_int(1, 6)
        vals = self.values(p, n)
        batch = p.generate_batch(n)
        batch.set_values(vals)
        mark = self.log_mark()
        self.fault_mark = len(cl.faulted)
        n_fail = user_failures(sim)
        if faults:
            arm_user_failures(sim, 1, ch.pick([0.02, 0.1, 0.3]))
            n_fail = user_failures(sim)
            if conf.na:
                cl.arm(3, stall=0.1, crash_before=0.04, crash_after=0.04, lost_result=0.04)
        elif conf.na:
            cl.arm(2, stall=0.1)
        try:
            p.evaluate(batch)
        except OUTAGES as e:
            if not self.hurt() and user_failures(sim) == n_fail:
                raise
            sim.probe("failed-evaluation")
            return self.failed(k, mark)
        cl.disarm()
        disarm_user_failures(sim)
        if self.hurt() or user_failures(sim) != n_fail:
            # something went wrong that did not matter for this evaluation
            cl.drain()
            evs = self.events(mark)
            k.extra_steps += sum(e[0] == "step" for e in evs)
            k.extra_episodes += sum(e[0] == "reset" for e in evs) + 1
            k.extra_obs += len(evs)
            k.vague = True
            if conf.na:
                p.kill_actors()
            return self.adopt(k)
        sim.probe("evaluated")
        self.account(k, mark, batch, vals)

    def account(self, k, mark, batch, vals):
        sim, conf, p = self.sim, self.conf, k.p
        evs = self.events(mark)
        if k.vague:
            k.steps += sum(e[0] == "step" for e in evs) if not conf.vec else 0
            k.extra_steps += sum(e[0] == "step" for e in evs) if conf.vec else 0
            k.episodes += conf.ne * len(batch)
            k.extra_obs += sum(e[0] in ("step", "reset") for e in evs)
            self.check_totals(k, "after an evaluation")
            self.check_stats(k, "after an evaluation")
            if not conf.na:
                self.adopt(k)
            return
        keys = [tuple(map(float, v)) for v in vals.tolist()]
        if conf.vec:
            r = review_vec(sim, conf, evs, k.stats, keys)
        else:
            r = review_gym(sim, conf, evs, k.stats)
        procs = set(e[1] for e in evs if e[0] == "step")
        if len(procs) > 1:
            sim.probe("several-workers")
        k.steps += r.steps
        k.episodes += r.episodes
        if k.fresh is not None:
            k.fresh.join(r.stats, k.stats)
        k.stats = r.stats
        self.noises += r.noises
        if conf.noise is None or not conf.vec:
            sim.check(
                set(r.by_key) == set(keys) and all(len(v) == conf.ne for v in r.by_key.values()),
                "wrong-episodes",
                lambda: f"episodes per solution: {[len(r.by_key.get(x, ())) for x in keys]}, expected {conf.ne} each"
                f" ({len(set(r.by_key) - set(keys))} unknown policies)",
            )
            if "fitness" in self.focus:
                got = plain(batch.evals)[:, 0].tolist()
                for key, f in zip(keys, got):
                    want = sum(conf.score(ep) for ep in r.by_key[key]) / conf.ne
                    sim.check(
                        abs(f - want) <= 1e-4 * (1 + abs(want)),
                        "wrong-fitness",
                        lambda: f"the solution got the fitness {f}, its episodes amount to {want}"
                        f" ({[ep.rewards for ep in r.by_key[key]]})",
                    )
        if conf.max_envs is not None and "envs" in self.focus:
            used = sum(r.sizes.values())
            sim.check(
                used <= conf.max_envs,
                "too-many-environments",
                lambda: f"{r.sizes} environments in use, the limit is {conf.max_envs}",
            )
            if conf.na:
                share = -(-conf.max_envs // conf.na)
                sim.check(
                    all(s <= share for s in r.sizes.values()),
                    "too-many-environments",
                    lambda: f"{r.sizes} environments in use, the share of a worker is {share}",
                )
        self.check_totals(k, "after an evaluation")
        self.check_stats(k, "after an evaluation")
        if "totals" in self.focus:
            st = p.status
            sim.check(
                (st["total_interaction_count"], st["total_episode_count"]) == (p.interaction_count, p.episode_count),
                "status-totals",
                lambda: f"the status tells {st['total_interaction_count']} and {st['total_episode_count']}",
            )

    def search(self, k):
        """Some generations of a search on the problem."""
        sim, ch, conf, p = self.sim, self.sim.ch, self.conf, k.p
        mark = self.log_mark()
        kw = {}
        if conf.na and ch.chance(0.6):
            kw["distributed"] = True
        na = max(1, conf.na)
        size = conf.cut.get("subbatch_size") or 1
        popsize = 2 * max(na, conf.cut.get("num_subbatches", 1)) * ch.rng_int(1, 2)
        if "subbatch_size" in conf.cut and kw:
            popsize = size * 2
            if size % 2:
                kw = {}
        self.cl.arm(2, stall=0.1)
        alg = ch.pick([SNES, PGPE])
        if alg is SNES:
            s = SNES(p, popsize=popsize, stdev_init=0.5, **kw)
        else:
            s = PGPE(p, popsize=popsize, stdev_init=0.5, center_learning_rate=0.3, stdev_learning_rate=0.1, **kw)
        s.run(ch.rng_int(1, 3))
        self.cl.disarm()
        sim.probe("searched" + ("-distributed" if kw else ""))
        self.tally(k, mark, None)

    def tally(self, k, mark, batch):
        """Account for all that has happened without looking into the solutions."""
        conf = self.conf
        evs = self.events(mark)
        if conf.vec:
            # what the additional environments do is not known without the solutions
            self.check_at_least(k, evs)
            return self.adopt_clean(k)
        for e in evs:
            if e[0] == "reset" and len(e[3]):
                ep = e[3]
                k.steps += len(ep)
                k.episodes += 1
                if conf.norm:
                    for x in ep.obs:
                        k.stats.add(x)
                        if k.fresh is not None:
                            k.fresh.add(x)
        self.check_totals(k, "after a search")
        self.check_stats(k, "after a search")

    def check_at_least(self, k, evs):
        if "totals" not in self.focus:
            return
        sim, p, conf = self.sim, k.p, self.conf
        done = 0
        for proc, es in per_proc(evs).items():
            for g in vec_groups(es, conf.ne, conf.own_vec):
                done += sum(map(len, g.eps[min(g.eps)][: conf.ne]))
        made = sum(e[0] == "step" for e in evs)
        got = p.interaction_count - k.steps
        sim.check(
            done <= got <= made + k.extra_steps,
            "wrong-totals",
            lambda: f"after a search: {got} more interactions are reported, the environments have seen {done} to {made}",
        )

    def adopt_clean(self, k):
        vague = k.vague
        self.adopt(k)
        k.vague = vague

    def run_policy(self, k):
        """GymNE.run: outside of the evaluation, in the main process."""
        sim, ch, conf, p = self.sim, self.sim.ch, self.conf, k.p
        vals = self.values(p, 1)[0]
        pol = p.make_net(vals) if ch.chance(0.5) else vals
        ne = ch.pick([None, 1, 2])
        dec = ch.pick([None, 0.5, 0.0])
        mark = self.log_mark()
        before = (p.interaction_count, p.episode_count)
        base = self.obs_stats(k) if conf.norm else Stats()
        update = ch.chance(0.4) and not k.vague
        how = ch.draw(4)
        if how == 1:
            ne = ne or 1
            res = p.visualize(pol, update_stats=update, num_episodes=ne, decrease_rewards_by=dec)
        else:
            res = p.run(pol, update_stats=update, visualize=how == 2, num_episodes=ne, decrease_rewards_by=dec)
        evs = self.events(mark)
        shown = sum(e[0] == "render" for e in evs)
        steps = sum(e[0] == "step" for e in evs)
        if how in (1, 2):
            sim.check(shown >= steps, "not-rendered", lambda: f"{shown} pictures of {steps} steps")
            sim.probe("visualized")
        else:
            sim.check(shown == 0, "rendered", "the environment was rendered although nobody asked for it")
        sim.probe("run-policy" + ("-updating" if update else ""))
        r = review_gym(sim, conf, self.events(mark), base, update=update)
        want_ne = conf.ne if ne is None else ne
        sim.check(r.episodes == want_ne, "wrong-episodes", lambda: f"{r.episodes} episodes were run, not {want_ne}")
        eps = [ep for v in r.by_key.values() for ep in v]
        d = (conf.decrease or 0.0) if dec is None else dec
        want = sum(sum(x - d + conf.bonus(t) for t, x in enumerate(ep.rewards, 1)) for ep in eps) / want_ne
        sim.check(
            abs(res["cumulative_reward"] - want) <= 1e-4 * (1 + abs(want)) and res["interaction_count"] == r.steps,
            "wrong-run-result",
            lambda: f"run() returned {res}, expected a reward of {want} in {r.steps} steps",
        )
        if update:
            if k.fresh is not None:
                k.fresh.join(r.stats, k.stats)
            k.stats = r.stats
            if conf.na:
                # the totals of a parallelized problem are the ones of its workers
                k.extra_steps += r.steps
                k.extra_episodes += r.episodes
            else:
                k.steps += r.steps
                k.episodes += r.episodes
            self.check_totals(k, "after running a policy")
            self.check_stats(k, "after running a policy")
            return
        sim.check(
            (p.interaction_count, p.episode_count) == before,
            "run-changes-totals",
            "running a policy without update_stats changed the totals",
        )
        if conf.norm:
            after = self.obs_stats(k)
            sim.check(
                after.count == base.count and near(after.total, base.total, 1e-12),
                "run-changes-statistics",
                "running a policy without update_stats changed the observation statistics",
            )

    def export(self, k, save=False):
        """to_policy and save_solution."""
        sim, ch, conf, p = self.sim, self.sim.ch, self.conf, k.p
        flat = self.values(p, 1)[0]
        form = ch.draw(5)
        if form == 0:
            arg = flat.clone()
        elif form == 1:
            arg = flat.numpy().copy()
        elif form == 2:
            arg = flat.tolist()
        else:
            b = p.generate_batch(2)
            b.set_values(torch.stack([flat, flat * 0]))
            arg = b[0] if form == 3 else b.values[0]
        base = self.obs_stats(k) if conf.norm else Stats()
        before = self.picture(k)
        clip = True
        if not save:
            if not conf.vec and ch.chance(0.3):
                clip = False
                pol = p.to_policy(arg, clip_actions=False)
            elif conf.vec and ch.chance(0.3):
                pol = p.to_policy(arg, with_wrapper_modules=False)
                clip, base = False, Stats()
            else:
                pol = p.to_policy(arg)
            sim.probe("exported")
        else:
            d = simdisk.disk(sim)
            fname = os.path.join(d.dir, f"s{ch.draw(2)}.pickle")
            d.arm(1, 0.2, ("open", "write", "torn", "close", "replace", "crash"))
            hit = d.injected
            there = content(fname)
            try:
                p.save_solution(arg, fname if ch.chance(0.5) else pathlib.Path(fname))
            except SimCrash:
                sim.probe("crashed-save")
                d.disarm()
                sim.check(content(fname) == there, "saved-file-lost", "a crash while saving damaged the file saved earlier")
                return
            except OSError:
                if d.injected == hit:
                    raise
                sim.probe("failed-save")
                sim.check(self.picture(k) == before, "export-disturbs", "a failed save changed the problem")
                sim.check(content(fname) == there, "saved-file-lost", "a failed save damaged the file saved earlier")
                sim.probe("failed-save-over-a-file", int(there is not None))
                d.disarm()
                p.save_solution(arg, fname)
            else:
                sim.check(d.injected == hit, "save-failure-hidden", "saving failed silently")
            d.disarm()
            with open(fname, "rb") as f:
                got = pickle.load(f)
            sim.probe("saved")
            sim.check(
                torch.equal(plain(torch.as_tensor(got["solution"])).reshape(-1), flat),
                "saved-solution-differs",
                "the saved file holds another solution",
            )
            sim.check(
                (got["interaction_count"], got["episode_count"]) == (p.interaction_count, p.episode_count),
                "saved-totals-differ",
                lambda: f"the file tells {got['interaction_count']} and {got['episode_count']}",
            )
            sim.check(("env" in got) == conf.named and got.get("env", "DstSim-v0") == "DstSim-v0", "saved-env", "wrong environment name in the file")
            if conf.norm and base.count:
                sim.check(
                    near(got["obs_mean"], base.mean, 1e-4)
                    and near(got["obs_stdev"], base.stdev)
                    and near(got["obs_sum"], base.total, 1e-5)
                    and near(got["obs_sum_of_squares"], base.squares, 1e-5),
                    "saved-statistics-differ",
                    lambda: f"the file tells mean {got['obs_mean']} stdev {got['obs_stdev']}, expected {base.mean} {base.stdev}",
                )
            pol = got["policy"]
        sim.check(self.picture(k) == before, "export-disturbs", "exporting a policy changed the problem")
        ex = (pol, tuple(flat.tolist()), base.copy(), clip)
        if form in (0, 1):
            arg *= 0.5  # (what becomes of the solution does not matter any more)
        elif form >= 3:
            b.set_values(torch.stack([flat, flat * 0]) + 1.0)
        self.check_export(ex)
        self.exports.append(ex)
        if ch.chance(0.3):
            self.check_export((pickle.loads(pickle.dumps(pol)),) + ex[1:])

    def picture(self, k):
        p = k.p
        s = self.obs_stats(k) if self.conf.norm else Stats()
        return (p.interaction_count, p.episode_count, s.count, np.asarray(s.total).tolist(), np.asarray(s.squares).tolist())

    def check_export(self, ex):
        sim, conf = self.sim, self.conf
        pol, flat, st, clip = ex
        ref = Reference(conf.net(), flat)
        h = None
        with torch.no_grad():
            for _ in range(3):
                obs = (self.maker.standard_normal(conf.n_obs) * 1.5 + conf.env["offset"]).astype(np.float32)
                out = pol(torch.as_tensor(obs)) if h is None else pol(torch.as_tensor(obs), h)
                if isinstance(out, tuple):
                    out, h = out
                want = ref(st.normalize(obs) if conf.norm else obs)
                if clip and not conf.discrete:
                    want = conf.applied(want)
                sim.check(
                    near(out, want),
                    "export-differs",
                    lambda: f"the exported policy says {out.tolist()} to {obs}, during evaluation it would be {want}",
                )
        self.sim.state["acting"] = None

    def copy(self, k):
        ch = self.sim.ch
        if k.vague:
            return
        how = ch.draw(3)
        c = k.p.clone() if how == 0 else copy.deepcopy(k.p) if how == 1 else pickle.loads(pickle.dumps(k.p))
        o = k.twin(c)
        self.sim.probe("copied")
        for x in (k, o):
            self.check_totals(x, "after copying")
            self.check_stats(x, "after copying")
        if self.sim.faults_on and ch.chance(0.3):
            self.sim.fault("process_crash")
            k.p.kill_actors()
            self.known[self.known.index(k)] = o
        else:
            self.known.append(o)

    def another(self, k):
        """One more problem of the same kind."""
        if len(self.known) < 3:
            self.known.append(Known(self.conf.make(self.sim)))

    def transplant(self, k):
        """Observation statistics are handed from one problem to another."""
        sim, ch = self.sim, self.sim.ch
        src = self.known[ch.draw(len(self.known))]
        if k.vague or src.vague or not self.conf.norm:
            return
        s = src.p.get_observation_stats()
        if s is None:
            return
        if src is k or ch.chance(0.6):
            k.p.set_observation_stats(s)
            k.stats = src.stats.copy()
            sim.probe("statistics-set")
        else:
            k.p.update_observation_stats(s)
            k.stats = k.stats.copy()
            k.stats.join(src.stats, Stats())
            sim.probe("statistics-added")
        for x in (k, src):
            self.check_stats(x, "after handing over statistics")

    def pop(self, k):
        """The statistics collected since the last time, of a problem without workers."""
        if k.vague or not self.conf.norm or self.conf.na:
            return
        s = k.p.pop_observation_stats()
        got = Stats() if s is None or s.count == 0 else Stats(s.count, np.asarray(s.sum, dtype=np.float64), np.asarray(s.sum_of_squares, dtype=np.float64))
        if k.fresh is not None:
            scale = 1.0 + np.sqrt(np.abs(k.fresh.squares * max(1, got.count)))
            self.sim.check(
                got.count == k.fresh.count and (got.count == 0 or near(got.total / scale, k.fresh.total / scale, 1e-4) and near(got.squares, k.fresh.squares, 1e-3)),
                "wrong-collected-statistics",
                lambda: f"{got.count} observations with the sum {got.total} were collected, expected {k.fresh.count} with {k.fresh.total}",
            )
            self.sim.probe("collected-statistics")
        k.fresh = Stats()
        self.check_stats(k, "after taking the collected statistics")

    def kill(self, k):
        if k.vague:
            self.cl.drain()
        k.p.kill_actors()
        self.check_totals(k, "after dropping the workers")
        self.check_stats(k, "after dropping the workers")
        self.sim.probe("dropped-workers")
        if k.vague:
            self.adopt(k)

    def go(self, weights, n):
        ch = self.sim.ch
        names = [x for x, w in weights.items() for _ in range(w)]
        for _ in range(n):
            k = self.known[ch.draw(len(self.known))]
            op = names[ch.draw(len(names))]
            self.sim.log(op)
            if op == "evaluate":
                self.evaluate(k)
            elif op == "faulty":
                self.evaluate(k, faults=self.sim.faults_on)
            elif op == "save":
                self.export(k, save=True)
            elif op == "kill":
                if self.conf.na:
                    self.kill(k)
            elif op == "run":
                if not self.conf.vec and not self.conf.noise:
                    self.run_policy(k)
            else:
                getattr(self, op)(k)
        for k in self.known:
            self.check_totals(k, "at the end")
            self.check_stats(k, "at the end")
        for ex in self.exports:
            self.check_export(ex)
        if len(self.noises) >= 20:
            self.sim.probe("noise-judged")
            x = np.array(self.noises)
            # (larger magnitudes suffer from clipping)
            for a, b, share in ((-9.0, 0.0, 0.5), (-0.5, 0.5, 0.3829), (-0.25, 0.25, 0.1974)):
                n = int(np.sum((a < x) & (x < b)))
                self.sim.check(
                    abs(n - share * len(x)) <= 7 * np.sqrt(len(x) * share * (1 - share)) + 1,
                    "wrong-noise",
                    lambda: f"{n} of {len(x)} noise samples are between {a} and {b} standard deviations",
                )


def c08_environments(sim):
    """Populations which grow until the simulated environments were used enough."""
    ch = sim.ch
    conf = Conf(sim, ch.chance(0.4), norm=False)
    distributed = conf.na > 0 and ch.chance(0.6)
    if conf.vec and conf.discrete:
        conf.discrete, conf.n_act, conf.ident = 0, 1, True
        conf.env.update(discrete=0, act=1, ident=True)
    if distributed:
        conf.cut, conf.max_envs = {}, None
    if distributed:
        conf.norm = ch.chance(0.4)
    s = Session(sim, conf, {"totals", "fitness"})
    k = s.known[0]
    share = 2 * ch.rng_int(1, 2)
    n = share * (conf.na if distributed else 1)
    limit = ch.rng_int(0, 4 * n * conf.ne * conf.env["limit"])
    size_max = ch.pick([None, None, n, 2 * n, 3 * n + 1, n // 2 + 1])
    kw = {"num_interactions": limit, "distributed": distributed}
    if size_max is not None:
        kw["popsize_max"] = size_max
    if ch.chance(0.5):
        alg = SNES(k.p, popsize=n, stdev_init=0.5, **kw)
    else:
        alg = PGPE(k.p, popsize=n, stdev_init=0.5, center_learning_rate=0.3, stdev_learning_rate=0.1, **kw)
    sim.log(type(alg).__name__, kw, n)
    s.cl.arm(2, stall=0.15)
    for i in range(ch.rng_int(1, 3)):
        mark = s.log_mark()
        alg.step()
        if not distributed:
            pop = alg.population
            sim.check(len(pop) % n == 0, "batch-size", lambda: f"{len(pop)} solutions with sub-populations of {n}")
            evs = s.events(mark)
            s.account(k, mark, pop, pop.values)
            keys = [tuple(map(float, v)) for v in pop.values.tolist()]
            r = review_vec(sim, conf, evs, Stats(), keys) if conf.vec else review_gym(sim, conf, evs, Stats())
            costs = [sum(len(ep) for x in keys[a : a + n] for ep in r.by_key[x]) for a in range(0, len(keys), n)]
            check_growth(sim, costs, n, limit, size_max)
            sim.check(int(alg.status["popsize"]) == len(pop), "popsize-status", lambda: f"popsize {alg.status['popsize']} reported for {len(pop)} solutions")
            continue
        used = per_proc([e for e in s.events(mark) if e[0] in ("step", "reset", "new", "vecreset")])
        busy = 0
        for proc, evs in used.items():
            if conf.vec:
                sizes = [[len(ep) for u in g.eps for ep in g.eps[u][: conf.ne]] for g in vec_groups(evs, conf.ne, conf.own_vec)]
                short = [len(x) for x in sizes if len(x) != share * conf.ne]
            else:
                eps = [len(e[3]) for e in evs if e[0] == "reset" and len(e[3]) > 0]
                sizes = [eps[a : a + share * conf.ne] for a in range(0, len(eps), share * conf.ne)]
                short = [len(x) for x in sizes[-1:] if len(x) != share * conf.ne]
            if not sizes:
                continue
            busy += 1
            sim.check(not short, "batch-size", lambda: f"{proc} evaluated batches with {short} episodes, expected {share * conf.ne}")
            costs = [sum(x) for x in sizes]
            k.steps += sum(costs)
            k.episodes += sum(map(len, sizes))
            check_growth(
                sim, costs, share, -(-limit // conf.na), None if size_max is None else -(-size_max // conf.na), f"{proc}: "
            )
        sim.check(busy == conf.na, "idle-worker", lambda: f"{busy} of {conf.na} workers had a sub-population")
        s.check_totals(k, "after a distributed step")
    s.cl.disarm()


def check_growth(sim, costs, size, limit, size_max, who=""):
    need = batches_needed(costs, size, limit, size_max)
    sim.check(
        need == len(costs),
        "wrong-growth",
        lambda: f"{who}{len(costs)} sub-populations of {size} with interactions {costs}; limit {limit}, size limit {size_max}",
    )
    if len(costs) > 1:
        sim.probe("grown" + ("-distributed" if who else ""))


def c09_totals(sim):
    conf = Conf(sim, sim.ch.chance(0.5))
    s = Session(sim, conf, {"totals"})
    s.go({"evaluate": 4, "faulty": 2, "copy": 1, "kill": 1, "search": 1, "run": 1}, sim.ch.rng_int(2, 6))


def c10_statistics(sim):
    conf = Conf(sim, sim.ch.chance(0.5), norm=True)
    s = Session(sim, conf, {"stats"})
    s.go(
        {"evaluate": 4, "faulty": 2, "copy": 1, "kill": 1, "search": 1, "run": 1, "transplant": 2, "another": 1, "pop": 1},
        sim.ch.rng_int(2, 7),
    )


def c11_episodes(sim):
    conf = Conf(sim, False, noise=True, own=True)
    s = Session(sim, conf, {"fitness"})
    s.go({"evaluate": 5, "faulty": 2, "run": 1, "copy": 1}, sim.ch.rng_int(1, 5))


def c12_vectorized(sim):
    conf = Conf(sim, True, noise=True)
    s = Session(sim, conf, {"fitness"})
    s.go({"evaluate": 5, "faulty": 2, "copy": 1}, sim.ch.rng_int(1, 5))


def c28_limits(sim):
    conf = Conf(sim, True)
    if conf.discrete:
        conf.discrete, conf.n_act, conf.ident = 0, 1, True
        conf.env.update(discrete=0, act=1, ident=True)
    if conf.max_envs is None:
        conf.max_envs = sim.ch.rng_int(max(1, conf.na), 9)
    s = Session(sim, conf, {"envs", "fitness"})
    s.go({"evaluate": 5, "faulty": 1, "copy": 2, "kill": 2, "export": 1, "search": 1}, sim.ch.rng_int(2, 6))


def c29_export(sim):
    conf = Conf(sim, sim.ch.chance(0.5))
    s = Session(sim, conf, {"export"})
    s.go({"evaluate": 2, "faulty": 1, "export": 3, "save": 3, "copy": 1, "kill": 1}, sim.ch.rng_int(2, 7))


def c13_sync_vector_env(sim):
    """SyncVectorEnv on its own, against the records of its sub-environments."""
    from evotorch.neuroevolution.net.vecrl import SyncVectorEnv

    ch = sim.ch
    n = ch.rng_int(1, 5)
    ne = ch.pick([None, 1, 2, 3])
    discrete = ch.pick([0, 3])
    cfg = dict(
        obs=ch.rng_int(1, 3),
        act=2,
        discrete=discrete,
        limit=ch.rng_int(1, 5),
        reuse=ch.chance(0.5),
        salt=ch.draw(10000),
        whole=ch.chance(0.2),
        info=ch.draw(4),
        int_obs=ch.chance(0.25),
    )
    empty_info = ch.chance(0.3)
    device = ch.pick([None, None, "cpu"])
    sim.log(n, ne, empty_info, device, sorted(cfg.items()))
    made = []

    def maker():
        e = SimEnv(**cfg)
        made.append(e)
        return e

    v = SyncVectorEnv([maker] * n, empty_info=empty_info, num_episodes=ne, device=device)
    sim.check(v.num_envs == n and len(made) == n, "wrong-size", "wrong number of sub-environments")
    left = [None] * n  # episodes left
    held = []  # results handed out, with their contents
    seeds_of = {}
    ready = False
    pending = None
    infos = [None] * n
    for e in made:
        note = e.note
        e.note = lambda e=e, note=note: infos.__setitem__(made.index(e), note()) or infos[made.index(e)]

    def array(x):
        sim.check(
            isinstance(x, torch.Tensor) == (device is not None), "wrong-array-type", lambda: f"a result has the type {type(x)}"
        )
        a = x.numpy() if isinstance(x, torch.Tensor) else x
        held.append((a, a.copy()))
        return a

    def check_info(got, want):
        if empty_info:
            sim.check(got == {}, "wrong-info", lambda: f"info is {got} although it was to be empty")
            return
        names = set().union(*[w.keys() for w in want])
        sim.check(set(got) == names, "wrong-info", lambda: f"info has the keys {sorted(got)}, expected {sorted(names)}")
        for k in names:
            given = [w.get(k) for w in want]
            if all(isinstance(y, (int, float, np.number, np.ndarray)) and np.shape(y) == np.shape(given[0]) for y in given):
                whole = np.ndarray if device is None else torch.Tensor
                sim.check(
                    isinstance(got[k], whole) and tuple(got[k].shape) == (n, *np.shape(given[0])),
                    "info-not-combined",
                    lambda: f"info[{k}] is a {type(got[k]).__name__}, the sub-environments gave {given}",
                )
                sim.probe("combined-info")
            for i in range(n):
                x = got[k][i]
                y = want[i].get(k)
                if y is None:
                    sim.check(x is None, "wrong-info", lambda: f"info[{k}][{i}] is {x}, the sub-environment gave nothing")
                else:
                    same = x == y if isinstance(y, str) else x is not None and np.array_equal(np.asarray(x), np.asarray(y))
                    sim.check(same, "wrong-info", lambda: f"info[{k}][{i}] is {x}, the sub-environment gave {y}")

    def check_obs(got, i, want, why):
        sim.check(
            np.array_equal(got[i], want, equal_nan=not cfg["int_obs"]),
            "wrong-observation",
            lambda: f"{why}: the observation of sub-environment {i} is {got[i]}, expected {want}",
        )

    for _ in range(ch.rng_int(2, 30)):
        op = ch.weighted([6, 1, 1]) if ready else 1
        faulty = sim.faults_on and ch.chance(0.1)
        if faulty:
            arm_user_failures(sim, 1, 0.3)
        n_fail = user_failures(sim)
        mark = len(simenv.log(sim))
        if op == 2:
            pending = ch.pick([None, 5, 17])
            sim.log("seed", pending)
            v.seed(pending)
            disarm_user_failures(sim)
            continue
        if op == 1:
            k = ch.draw(3)
            kw = {}
            if k == 1:
                kw["seed"] = pending = ch.pick([3, 99])
            elif k == 2 and ch.chance(0.4):
                kw["seed"] = pending = None
            sim.log("reset", kw)
            given, pending = pending, None
            try:
                obs, info = v.reset(**kw)
            except InjectedError:
                sim.check(user_failures(sim) > n_fail, "unexpected-failure", "reset failed by itself")
                disarm_user_failures(sim)
                ready = False
                v.seed(None)
                continue
            disarm_user_failures(sim)
            ready = True
            evs = simenv.log(sim)[mark:]
            sim.check(
                [e[2] for e in evs if e[0] == "reset"] == [e.uid for e in made] and len(evs) == n,
                "wrong-resets",
                lambda: f"resetting led to {[e[:3] for e in evs]}",
            )
            seeds = tuple(e.episode.seed for e in made)
            if given is None:
                sim.check(all(s is None for s in seeds), "seeded-unasked", lambda: f"the sub-environments were seeded with {seeds}")
            else:
                sim.check(
                    all(isinstance(s, int) for s in seeds) and len(set(seeds)) == n,
                    "bad-seeds",
                    lambda: f"the sub-environments were seeded with {seeds}",
                )
                sim.check(
                    seeds_of.setdefault(given, seeds) == seeds, "bad-seeds", "the same seed led to different seeds of the sub-environments"
                )
                sim.probe("seeded")
            a = array(obs)
            sim.check(a.dtype == made[0].observation_space.dtype, "wrong-dtype", lambda: f"observations have the dtype {a.dtype}")
            for i, e in enumerate(made):
                check_obs(a, i, e.episode.obs[0], "after reset")
            check_info(info, infos)
            left = [ne] * n
            continue
        # a step
        if discrete:
            acts = np.array([ch.draw(discrete) for _ in range(n)])
        else:
            sp = made[0].action_space
            acts = np.stack([sp.low + (sp.high - sp.low) * ch.draw(11) / 10 for _ in range(n)]).astype(np.float32)
            acts = np.clip(acts, sp.low, sp.high)
        given_acts = torch.as_tensor(acts) if ch.chance(0.5) else acts.copy()
        eps = [e.episode for e in made]
        sim.log("step")
        try:
            obs, rew, ter, tru, info = v.step(given_acts)
        except InjectedError:
            sim.check(user_failures(sim) > n_fail, "unexpected-failure", "step failed by itself")
            disarm_user_failures(sim)
            sim.probe("failed-step")
            ready = False
            continue
        disarm_user_failures(sim)
        evs = simenv.log(sim)[mark:]
        active = [ne is None or left[i] > 0 for i in range(n)]
        sim.check(
            [e[2] for e in evs if e[0] == "step"] == [e.uid for i, e in enumerate(made) if active[i]],
            "wrong-steps",
            lambda: f"the sub-environments {[e[2] for e in evs if e[0] == 'step']} were stepped; active: {active}",
        )
        a, r, te, tr = array(obs), array(rew), array(ter), array(tru)
        want_info = []
        for i, (e, ep) in enumerate(zip(made, eps)):
            if not active[i]:
                check_obs(a, i, np.full(cfg["obs"], 0 if cfg["int_obs"] else np.nan), "exhausted")
                sim.check(np.isnan(r[i]) and te[i] and tr[i], "exhausted-result", lambda: f"exhausted: {r[i]} {te[i]} {tr[i]}")
                want_info.append({})
                sim.probe("exhausted")
                continue
            sim.check(
                np.array_equal(np.asarray(ep.actions[-1]), acts[i].astype(np.float64) if not discrete else acts[i]),
                "wrong-action",
                lambda: f"sub-environment {i} got {ep.actions[-1]}, not {acts[i]}",
            )
            sim.check(
                r[i] == ep.rewards[-1] and (bool(te[i]), bool(tr[i])) == ep.last,
                "wrong-result",
                lambda: f"sub-environment {i}: {r[i]} {te[i]} {tr[i]}, expected {ep.rewards[-1]} {ep.last}",
            )
            want_info.append(infos[i])
            if ep.over:
                sim.probe("episode-over")
                if ne is not None:
                    left[i] -= 1
                if ne is None or left[i] > 0:
                    sim.check(e.episode is not ep, "not-reset", lambda: f"sub-environment {i} was not reset after its episode")
                    check_obs(a, i, e.episode.obs[0], "after an automatic reset")
                else:
                    # the last observation of the last episode
                    check_obs(a, i, ep.obs[-1], "at the end of the last episode")
                    sim.check(e.episode is ep, "reset-after-last", lambda: f"sub-environment {i} was reset after its last episode")
            else:
                check_obs(a, i, ep.obs[-1], "after a step")
        check_info(info, want_info)
    for a, was in held:
        sim.check(np.array_equal(a, was, equal_nan=a.dtype.kind == "f"), "result-changed-later", "a result was changed by later steps")
    v.close()
    sim.check(all(e.closed for e in made), "not-closed", "a sub-environment was not closed")
