"""Deterministic simulation kernel.

One `Sim` object is one simulated run.  Everything that is not a pure function of the
code under test is drawn from `Sim.ch` (a recorded sequence of small integers), so that
a run is completely determined by that sequence: the same seed gives the same sequence,
and feeding a recorded sequence back replays the run exactly.

By convention the value 0 of every draw is the most benign one (no fault, no delay,
smallest workload): shrinking a failing run means deleting and lowering draws.
"""

import hashlib
import random as _random
import traceback

SIM = None  # the simulated run which is currently active in this OS process


class Violation(BaseException):
    """A property is violated.  Derives from BaseException so that code under test which
    catches `Exception` can not swallow it."""

    def __init__(self, key, message, details=None):
        super().__init__(f"{key}: {message}")
        self.key = key
        self.message = message
        self.details = details


class HarnessError(BaseException):
    """Something is wrong in the simulator itself (never reported as a violation)."""


class SimCrash(BaseException):
    """The simulated main process dies at this point."""


class InjectedError(Exception):
    """An error raised by the user's side (fitness function, environment, hook, backend)."""


def _injected(base):
    return type("Injected" + base.__name__, (InjectedError, base), {"__doc__": None, "__module__": __name__})


InjectedArithmeticError = _injected(ArithmeticError)
InjectedValueError = _injected(ValueError)
InjectedKeyError = _injected(KeyError)
InjectedIndexError = _injected(IndexError)
InjectedTypeError = _injected(TypeError)
InjectedAttributeError = _injected(AttributeError)
InjectedOSError = _injected(OSError)
InjectedRuntimeError = _injected(RuntimeError)
InjectedAssertionError = _injected(AssertionError)

INJECTED = [
    InjectedError,
    InjectedArithmeticError,
    InjectedValueError,
    InjectedKeyError,
    InjectedIndexError,
    InjectedTypeError,
    InjectedAttributeError,
    InjectedOSError,
    InjectedRuntimeError,
    InjectedAssertionError,
]


class Choices:
    def __init__(self, seed=None, replay=None):
        self.rng = _random.Random(seed) if replay is None else None
        self.replay = list(replay) if replay is not None else None
        self.rec = []

    def _next(self, n):
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
            if v < 0:
                v = 0
        else:
            v = self.rng.randrange(n)
        return v

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        v = self._next(n)
        self.rec.append(v)
        return v

    def rng_int(self, lo, hi):
        """An integer in [lo, hi], lo being the simplest."""
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, p):
        """True with probability p (p given with a resolution of 1/1000)."""
        if p <= 0:
            return False
        if self.replay is not None:
            v = self._next(2)
        else:
            v = 1 if self.rng.random() < p else 0
        self.rec.append(v)
        return bool(v)

    def weighted(self, weights):
        """Index drawn according to the given weights (index 0 being the simplest)."""
        if self.replay is not None:
            v = self._next(len(weights))
        else:
            x = self.rng.random() * sum(weights)
            v = 0
            for v, w in enumerate(weights):
                x -= w
                if x < 0:
                    break
        self.rec.append(v)
        return v

    def latency(self, scale=1.0):
        """A non-negative, heavy-tailed simulated duration. 0 draws give the minimum."""
        e = self.draw(1000)
        # e in [0, 1000) -> from 1 ms up to about 1000 s, log-uniform
        return scale * 0.001 * (10.0 ** (6.0 * e / 1000.0))

    def seed(self):
        return self.draw(2**31 - 1)

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Sim:
    """A simulated run: choices, clock, trace, fault accounting, ledgers."""

    MAX_EVENTS = 200_000

    def __init__(self, seed=None, replay=None, faults=True, variant=None):
        self.ch = Choices(seed, replay)
        self.faults_on = bool(faults)
        self.now = 1_700_000_000.0
        self.t0 = self.now
        self.trace = []
        self.sig = hashlib.sha256()
        self.sched_sig = hashlib.sha256()
        self.fault_counts = {}
        self.probes = {}
        self.checks = 0
        self.n_events = 0
        self.sim_time = 0.0
        self.proc = "main"
        self.ledger = []
        self.cleanup = []
        self.state = {}

    # -- time -------------------------------------------------------------------------
    def advance(self, dt):
        self.now += dt
        self.sim_time += max(dt, 0.0)

    # -- accounting -------------------------------------------------------------------
    def tick(self):
        self.n_events += 1
        if self.n_events > self.MAX_EVENTS:
            raise Violation("no-progress", f"the simulated run needed more than {self.MAX_EVENTS} events")

    def event(self, kind, *info):
        self.tick()
        rec = (kind,) + tuple(str(x) for x in info)
        if len(self.trace) < 4000:
            self.trace.append(rec)
        self.sig.update(repr(rec).encode())

    def sched(self, *info):
        """Record a scheduling decision: these form the interleaving signature."""
        self.sched_sig.update(repr(info).encode())
        self.event("sched", *info)

    def fault(self, kind, *info):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.event("FAULT:" + kind, *info)

    def probe(self, name, n=1):
        """Count how often an interesting situation has been reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond, key, message="", details=None):
        self.checks += 1
        if not cond:
            raise Violation(key, message() if callable(message) else message, details)

    def log(self, *info):
        self.event("op", *info)


def activate(sim):
    global SIM
    SIM = sim


def current():
    if SIM is None:
        raise HarnessError("no simulated run is active")
    return SIM


REPO_MARK = "/src/evotorch/"


def classify_exception(exc):
    """An exception escaped from a scenario.  Tell whether it comes from the code under
    test (a frame of evotorch is on the stack at the point of raise) or from the harness."""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    in_repo = [f for f in frames if REPO_MARK in f.filename]
    if in_repo:
        f = in_repo[-1]
        return "sut", f"{type(exc).__name__} in {f.name}"
    return "harness", f"{type(exc).__name__}"
