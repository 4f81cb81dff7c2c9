"""Networks as solutions: C26 C27."""

import copy
import pickle

import torch
from torch import nn
from torch.utils.data import DataLoader, Dataset

from evotorch.neuroevolution import NEProblem, SupervisedNE

from .. import kernel, work
from ..work import (
    Fit,
    arm_user_failures,
    check_evals,
    check_once,
    disarm_user_failures,
    may_fail,
    note_eval,
    plain,
    row_key,
    splitting,
    user_failures,
)
from .evaluation import OUTAGES, draw_cluster


def flat(net):
    with torch.no_grad():
        return torch.cat([p.detach().reshape(-1) for p in net.parameters()])


# ------------------------------------------------------------------------------------ C27


class Small(nn.Module):
    def __init__(self, inputs=2, outputs=1, hidden=2):
        super().__init__()
        self.a = nn.Linear(inputs, hidden)
        self.b = nn.Linear(hidden, outputs, bias=False)

    def forward(self, x):
        return self.b(torch.tanh(self.a(x)))


def make_small():
    return Small(1, 2, 2)


class Judge:
    """Evaluates a network by the very numbers it consists of; possibly trains it on the way."""

    def __init__(self, fit, habit):
        self.fit, self.habit = fit, habit
        self.__name__ = "judge"

    def __call__(self, net):
        key = row_key(flat(net))
        note_eval(key)
        if self.habit == 1:  # learns during its life
            with torch.no_grad():
                for p in net.parameters():
                    p.add_(1.0)
        elif self.habit == 2:
            opt = torch.optim.SGD(net.parameters(), lr=0.5)
            opt.zero_grad()
            sum(p.square().sum() for p in net.parameters()).backward()
            opt.step()
        vals = self.fit.expected(key)
        if self.fit.ndata:
            return torch.tensor(vals[: self.fit.nobj]), torch.tensor(vals[self.fit.nobj :])
        return vals[0] if self.fit.nobj == 1 else torch.tensor(vals)


class Judged(NEProblem):
    def __init__(self, judge, *args, **kw):
        super().__init__(*args, **kw)
        self.judge = judge

    def _evaluate_network(self, net):
        return self.judge(net)


def c27_networks(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 0, 2, 3])
    nobj = ch.pick([1, 1, 2])
    ndata = ch.pick([0, 0, 1])
    judge = Judge(Fit(nobj, ndata, ch.draw(3)), ch.draw(3))
    form = ch.draw(4)
    kw = {}
    if form == 0:
        network = "Linear(2, 2) >> Tanh() >> Linear(2, outs, bias=False)"
        kw["network_args"] = {"outs": 1}
    elif form == 1:
        network = Small
        kw["network_args"] = {"inputs": ch.rng_int(1, 2), "hidden": 2}
    elif form == 2:
        network = Small(2, 1, 1)
    else:
        network = make_small
    kw.update(
        num_actors=na,
        seed=ch.pick([None, 5]),
        initial_bounds=(-2.0, 2.0),
        eval_data_length=ndata,
        **(splitting(sim, ch, na) if na else {}),
    )
    senses = ["min", "max"][:nobj] if nobj > 1 else "min"
    if ch.chance(0.5):
        p = NEProblem(senses, network, judge, **kw)
    else:
        p = Judged(judge, senses, network, **kw)
    made = work.Made(p, judge.fit, "net", torch.float32)
    sim.log(form, na, nobj, ndata, judge.habit)
    nets = []  # networks made for the user, with their parameters
    problems = [p]
    last = None

    def check_nets(when):
        for net, want, probe, out in nets:
            sim.check(
                torch.equal(flat(net), want), "made-network-changed", lambda: f"{when}: a network made before has other parameters now"
            )
            with torch.no_grad():
                sim.check(torch.equal(net(probe), out), "made-network-changed", lambda: f"{when}: a network made before behaves differently")

    for _ in range(ch.rng_int(2, 8)):
        p = problems[ch.draw(len(problems))]
        op = ch.pick(["evaluate", "evaluate", "net", "net", "alter", "copy", "kill", "faulty", "again"])
        sim.log(op)
        if op in ("evaluate", "faulty", "again"):
            if op == "again" and last is not None:
                batch = last
            else:
                batch = last = p.generate_batch(ch.rng_int(1, 6))
            before = plain(batch.values)
            mark = len(sim.ledger)
            fm = len(cl.faulted)
            if op == "faulty":
                arm_user_failures(sim, 1, 0.2)
                cl.arm(1, stall=0.1, crash_before=0.05, crash_after=0.05, lost_result=0.05)
            elif na:
                cl.arm(2, stall=0.1)
            try:
                p.evaluate(batch)
            except OUTAGES:
                if not any(k != "stall" for k, _ in cl.faulted[fm:]) and not (op == "faulty" and user_failures(sim)):
                    raise
                sim.probe("failed-evaluation")
                cl.disarm()
                disarm_user_failures(sim)
                cl.drain()
                p.kill_actors()
                last = None
                for r in work.evaluations_since(sim, mark):
                    sim.check(
                        r[2] in set(row_key(x) for x in before), "foreign-network", "a network with foreign parameters was evaluated"
                    )
                check_nets("after a failed evaluation")
                continue
            cl.disarm()
            disarm_user_failures(sim)
            if any(k != "stall" for k, _ in cl.faulted[fm:]):
                cl.drain()
                p.kill_actors()
            sim.check(torch.equal(plain(batch.values), before), "solution-changed", "evaluating networks changed the solutions")
            check_evals(sim, made, batch, "wrong-result")
            check_once(sim, [row_key(x) for x in before], mark, "not-exactly-once")
            sim.probe("evaluated")
        elif op == "net":
            b = p.generate_batch(2)
            v = plain(b.values[0])
            k = ch.draw(4)
            if k == 0:
                arg = b[0]
            elif k == 1:
                arg = v.clone()
            elif k == 2:
                arg = v.numpy().copy()
            else:
                arg = v.tolist()
            net = p.make_net(arg)
            sim.check(torch.equal(flat(net), v), "wrong-parameters", "a network was made with wrong parameters")
            sim.check(
                torch.equal(plain(b.values[0]), v), "solution-changed", "making a network changed the solution"
            )
            probe = torch.linspace(-1, 1, next(net.parameters()).shape[1])
            with torch.no_grad():
                nets.append((net, v, probe, net(probe).clone()))
            sim.probe("made")
        elif op == "alter" and nets:
            # the user trains a network of theirs
            i = ch.draw(len(nets))
            net, v, probe, out = nets.pop(i)
            with torch.no_grad():
                for q in net.parameters():
                    q.mul_(0.5).add_(3.0)
                nets.append((net, v * 0.5 + 3.0, probe, net(probe).clone()))
            sim.probe("altered")
        elif op == "copy":
            how = ch.draw(3)
            c = p.clone() if how == 0 else copy.deepcopy(p) if how == 1 else pickle.loads(pickle.dumps(p))
            if sim.faults_on and ch.chance(0.3):
                sim.fault("process_crash")
                p.kill_actors()
                problems[problems.index(p)] = c
            else:
                problems.append(c)
            sim.probe("copied")
        elif op == "kill":
            p.kill_actors()
        check_nets("after " + op)


# ------------------------------------------------------------------------------------ C26


class Numbers(Dataset):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return torch.tensor([float(i) / 4, 1.0]), torch.tensor([float(i)])


class Line(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(2))

    def forward(self, x):
        kernel.current().state["acting"] = row_key(self.w)
        return x @ self.w.reshape(2, 1)


def line_loss(y_hat, y):
    sim = kernel.current()
    loss = torch.mean((y_hat - torch.cos(y)) ** 2)
    work.record(sim, "loss", sim.state["acting"], tuple(int(i) for i in y.reshape(-1)), float(loss))
    may_fail("the loss fails")
    return loss


class Lesson(SupervisedNE):
    """Records what is drawn and handed out."""

    def __init__(self, *args, own_loader=None, own_loss=False, **kw):
        if own_loss:
            kw.pop("loss_func", None)
        super().__init__(*args, **kw)
        self.own_loader = own_loader

    def _make_dataloader(self):
        size, drop = self.own_loader
        return DataLoader(self.dataset, shuffle=True, batch_size=size, drop_last=drop)

    def _loss(self, y_hat, y):
        return line_loss(y_hat, y)

    def get_minibatch(self):
        b = super().get_minibatch()
        sim = kernel.current()
        sim.state.setdefault("lessons", []).append(self)  # keeps the identity unique
        work.record(sim, "draw", id(self), tuple(int(i) for i in b[1].reshape(-1)))
        return b

    def _evaluate_batch(self, batch):
        work.record(kernel.current(), "piece", id(self), len(batch))
        return super()._evaluate_batch(batch)


def c26_minibatches(sim):
    ch = sim.ch
    cl = draw_cluster(sim)
    na = ch.pick([0, 0, 2, 3])
    n = ch.rng_int(1, 9)
    size = ch.rng_int(1, 5)
    nm = ch.pick([None, 1, 2, 3])
    common = ch.chance(0.6)
    own = ch.chance(0.3)
    drop = own and n >= size and ch.chance(0.3)
    kw = dict(
        num_minibatches=nm, num_actors=na, common_minibatch=common, initial_bounds=(-2.0, 2.0), **(splitting(sim, ch, na) if na else {})
    )
    own_loss = ch.chance(0.3)
    if own:
        p = Lesson(Numbers(n), Line, own_loss=own_loss, own_loader=(size, drop), loss_func=line_loss, **kw)
    else:
        p = Lesson(Numbers(n), Line, own_loss=own_loss, minibatch_size=size, loss_func=line_loss, **kw)
    nm = nm or 1
    sim.log(na, n, size, nm, common, own, drop)
    torn = False
    streams = {}  # problem instance -> items drawn in its current epoch
    shuffled = []  # whether the order of an epoch was a shuffled one
    problems = [p]

    def follow(ledger):
        """Every epoch covers the dataset before anything repeats."""
        for r in ledger:
            if r[0] != "draw":
                continue
            seen = streams.setdefault((r[1], r[2]), [])
            left = n - len(seen)
            if left == 0 or (drop and left < size):
                if n >= 5:
                    shuffled.append(seen != sorted(seen))
                del seen[:]
                left = n
                sim.probe("epoch-over")
            sim.check(
                len(r[3]) == min(size, left),
                "wrong-minibatch-size",
                lambda: f"a minibatch has {len(r[3])} items (size {size}, {left} items left in the epoch)",
            )
            sim.check(
                len(set(r[3])) == len(r[3]) and not set(r[3]) & set(seen),
                "item-repeated",
                lambda: f"the minibatch {r[3]} repeats items of the epoch {seen}",
            )
            seen.extend(r[3])

    for _ in range(ch.rng_int(2, 8)):
        p = problems[ch.draw(len(problems))]
        op = ch.pick(["evaluate", "evaluate", "evaluate", "faulty", "copy", "kill", "draw"])
        sim.log(op)
        mark = len(sim.ledger)
        if op == "copy":
            how = ch.draw(3)
            c = p.clone() if how == 0 else copy.deepcopy(p) if how == 1 else pickle.loads(pickle.dumps(p))
            problems.append(c)
            sim.probe("copied")
            continue
        if op == "kill":
            p.kill_actors()
            continue
        if op == "draw":
            for _ in range(ch.rng_int(1, 3)):
                p.get_minibatch()
            follow(sim.ledger[mark:])
            continue
        batch = p.generate_batch(ch.rng_int(1, 6))
        keys = [row_key(x) for x in batch.values]
        fm = len(cl.faulted)
        if op == "faulty":
            arm_user_failures(sim, 1, 0.15)
            cl.arm(1, stall=0.1, crash_before=0.05, crash_after=0.05, lost_result=0.05)
        elif na:
            cl.arm(2, stall=0.1)
        try:
            p.evaluate(batch)
        except OUTAGES:
            if not any(k != "stall" for k, _ in cl.faulted[fm:]) and not (op == "faulty" and user_failures(sim)):
                raise
            cl.disarm()
            disarm_user_failures(sim)
            cl.drain()
            sim.probe("failed-evaluation")
            follow(sim.ledger[mark:])
            torn = True
            if any(k != "stall" for k, _ in cl.faulted[fm:]):
                p.kill_actors()
            continue
        cl.disarm()
        disarm_user_failures(sim)
        if any(k != "stall" for k, _ in cl.faulted[fm:]):
            cl.drain()
            p.kill_actors()
        led = sim.ledger[mark:]
        follow(led)
        sim.probe("evaluated")
        # pieces of work, each with its draws and losses
        pieces, open_ = [], {}
        for r in led:
            if r[0] == "piece":
                open_[r[1]] = {"n": r[3], "draws": [], "losses": []}
                pieces.append(open_[r[1]])
            elif r[0] == "draw":
                open_[r[1]]["draws"].append(r[3])
            elif r[0] == "loss":
                open_[r[1]]["losses"].append(r[2:])
        got = {}
        for piece in pieces:
            if piece["n"] == 0 or (torn and not any(x[0] in keys for x in piece["losses"])):
                continue  # what a failed evaluation left behind in the queue
            want = nm if common else nm * piece["n"]
            sim.check(
                len(piece["draws"]) == want,
                "wrong-number-of-minibatches",
                lambda: f"{len(piece['draws'])} minibatches were drawn for {piece['n']} networks, expected {want}",
            )
            per = {}
            for key, items, loss in piece["losses"]:
                per.setdefault(key, []).append((items, loss))
            for i, (key, ls) in enumerate(per.items()):
                used = piece["draws"] if common else piece["draws"][i * nm : (i + 1) * nm]
                sim.check(
                    [x for x, _ in ls] == used,
                    "wrong-minibatches",
                    lambda: f"a network was scored on {[x for x, _ in ls]}, it should have been {used}",
                )
                got[key] = [x for _, x in ls]
        sim.check(set(got) == set(keys), "wrong-networks", "not exactly the networks of the batch were scored")
        for key, f in zip(keys, plain(batch.evals)[:, 0].tolist()):
            want = sum(got[key]) / nm
            sim.check(
                abs(f - want) <= 1e-5 * (1 + abs(want)),
                "wrong-fitness",
                lambda: f"the fitness is {f}, the losses were {got[key]}",
            )
    if len(shuffled) >= 6:
        sim.check(any(shuffled), "not-shuffled", lambda: f"{len(shuffled)} epochs were all in the original order of the items")
        sim.probe("shuffled")
