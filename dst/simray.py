"""A simulated `ray`.

The module is placed into `sys.modules["ray"]` before evotorch is imported.  Actors are
Python objects living in this OS process, but each is a separate simulated process: what
goes in and comes out is serialised (arrays arrive read-only, as with the real object
store), and it owns its global random number generator states.  All scheduling, delays and
faults are drawn from the active `Sim`.

The real `ray.util.actor_pool.ActorPool` source runs on top of this module.
"""

import heapq
import importlib.util
import inspect
import itertools
import os
import pickle
import random
import sys
import types
from collections import deque

import cloudpickle
import numpy as np
import torch

from . import kernel
from .kernel import HarnessError, InjectedError, SimCrash, Violation

# ---------------------------------------------------------------------------- exceptions


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, function_name="", traceback_str="", cause=None):
        self.function_name = function_name
        self.traceback_str = traceback_str
        self.cause = cause
        super().__init__(f"{function_name}: {type(cause).__name__}: {cause}")

    def as_instanceof_cause(self):
        cause_cls = self.cause.__class__
        if issubclass(RayTaskError, cause_cls):
            return self
        try:

            class cls(RayTaskError, cause_cls):
                def __init__(self, cause, outer):
                    self.cause = cause
                    self.args = (cause,)
                    self.function_name = outer.function_name
                    self.traceback_str = outer.traceback_str

                def __str__(self):
                    return f"{self.function_name}: {type(self.cause).__name__}: {self.cause}"

            cls.__name__ = f"RayTaskError({cause_cls.__name__})"
            cls.__qualname__ = cls.__name__
            return cls(self.cause, self)
        except TypeError:
            return self


class RayActorError(RayError):
    pass


class ActorDiedError(RayActorError):
    pass


class ActorUnavailableError(RayActorError):
    pass


class ObjectLostError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


# ------------------------------------------------------------------------ serialisation


def _freeze(obj):
    """Serialise; out-of-band buffers are kept as immutable bytes, so that numpy arrays
    arrive read-only on the other side, as they do with ray's shared memory store."""
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=lambda b: bufs.append(bytes(b.raw())))
    return data, bufs


def _thaw(frozen):
    data, bufs = frozen
    return pickle.loads(data, buffers=bufs)


# ----------------------------------------------------------------------- RNG per process


def get_rng():
    return random.getstate(), np.random.get_state(), torch.get_rng_state()


def set_rng(st):
    random.setstate(st[0])
    np.random.set_state(st[1])
    torch.set_rng_state(st[2])


def fresh_rng(seed):
    saved = get_rng()
    random.seed(seed)
    np.random.seed((seed * 7919 + 13) % (2**32))
    torch.manual_seed(seed * 104729 + 7)
    st = get_rng()
    set_rng(saved)
    return st


# -------------------------------------------------------------------------- object store


class ObjectRef:
    def __init__(self, oid):
        self._oid = oid

    def __hash__(self):
        return hash(("ObjectRef", self._oid))

    def __eq__(self, other):
        return isinstance(other, ObjectRef) and self._oid == other._oid

    def __repr__(self):
        return f"ObjectRef({self._oid})"

    def hex(self):
        return f"{self._oid:08x}"


class _Entry:
    __slots__ = ("ready", "frozen", "error")

    def __init__(self):
        self.ready = False
        self.frozen = None
        self.error = None


class _Task:
    __slots__ = ("name", "frozen", "ref", "seq")

    def __init__(self, name, frozen, ref, seq):
        self.name = name
        self.frozen = frozen
        self.ref = ref
        self.seq = seq


class _ActorState:
    def __init__(self, index, cls, options):
        self.index = index
        self.cls = cls
        self.options = options
        self.queue = deque()
        self.busy = False
        self.alive = True
        self.death = None
        self.instance = None
        self.rng = None
        self.slowness = 1.0
        self.n_done = 0


DEFAULT_RATES = {
    "crash_before": 0.0,  # the actor dies before executing the task
    "crash_after": 0.0,  # the actor executes the task and dies before the answer leaves
    "lost_result": 0.0,  # executed, the actor lives, the answer is lost
    "stall": 0.0,  # this task takes far longer than the others
    "create_fail": 0.0,  # the process of the actor dies while it is being created
    "interrupt": 0.0,  # the main process is interrupted while it is waiting
}


class Cluster:
    """The state of the simulated ray cluster within one simulated run."""

    def __init__(self, sim, resources=None):
        self.sim = sim
        self.initialized = False
        self.resources = dict(resources or {"CPU": 4.0, "memory": 1e9})
        self.objects = {}
        self.actors = []
        self.heap = []
        self.seq = itertools.count()
        self.oid = itertools.count(1)
        self.rates = dict(DEFAULT_RATES)
        self.faults_left = 0
        self.faulted = []  # (kind, actor index) of the faults which were injected
        self.user_errors = 0  # errors raised by user code inside actors
        self.eager = 0  # extra events which are let happen at submission/wait points
        self.on_task = None  # optional observer (actor, task, phase)
        self.init_calls = 0
        self.kills = 0

    # -- faults ----------------------------------------------------------------------
    def arm(self, budget, **rates):
        """Allow up to `budget` faults with the given per-opportunity probabilities."""
        self.rates = dict(DEFAULT_RATES)
        if self.sim.faults_on:
            self.rates.update(rates)
            self.faults_left = budget
        else:
            self.faults_left = 0

    def disarm(self):
        self.rates = dict(DEFAULT_RATES)
        self.faults_left = 0

    def _inject(self, kind, who):
        if self.faults_left <= 0 or self.rates.get(kind, 0.0) <= 0.0:
            return False
        if self.sim.ch.chance(self.rates[kind]):
            self.faults_left -= 1
            self.faulted.append((kind, who))
            self.sim.fault(kind, who)
            return True
        return False

    # -- events ----------------------------------------------------------------------
    def at(self, dt, fn, *args):
        heapq.heappush(self.heap, (self.sim.now + dt, next(self.seq), fn, args))

    def step(self):
        """Let the next event happen. Returns False if there is none."""
        if not self.heap:
            return False
        t, _, fn, args = heapq.heappop(self.heap)
        if t > self.sim.now:
            self.sim.advance(t - self.sim.now)
        self.sim.tick()
        fn(*args)
        return True

    def create_actor(self, cls, options, args, kwargs):
        a = _ActorState(len(self.actors), cls, options)
        self.actors.append(a)
        ch = self.sim.ch
        a.slowness = (1.0, 1.0, 1.0, 30.0, 3000.0)[ch.draw(5)]
        a.rng = fresh_rng(ch.seed())
        ref = self._new_ref()
        a.queue.append(_Task("__init__", _freeze((args, kwargs)), ref, next(self.seq)))
        self._kick(a)
        return ActorHandle(a.index, cls)

    def _new_ref(self):
        r = ObjectRef(next(self.oid))
        self.objects[r._oid] = _Entry()
        return r

    def submit(self, index, name, args, kwargs):
        a = self.actors[index]
        ref = self._new_ref()
        task = _Task(name, _freeze((args, kwargs)), ref, next(self.seq))
        self.sim.event("submit", index, name)
        if not a.alive:
            self._finish(ref, error=a.death)
        else:
            a.queue.append(task)
            self._kick(a)
        # the rest of the cluster may run ahead of the submitting process
        if self.eager:
            for _ in range(self.sim.ch.draw(self.eager + 1)):
                if not self.step():
                    break
        return ref

    def _kick(self, a):
        if a.busy or not a.alive or not a.queue:
            return
        a.busy = True
        dt = self.sim.ch.latency() * a.slowness
        if self._inject("stall", a.index):
            dt *= 1e5
        dt = min(dt, 3e7)  # about a year
        self.at(dt, self._execute, a)

    def _die(self, a, error):
        a.alive = False
        a.death = error
        a.instance = None
        pending, a.queue = list(a.queue), deque()
        for t in pending:
            self._finish(t.ref, error=error)

    def _execute(self, a):
        if not a.alive:
            return
        a.busy = False
        if not a.queue:
            return
        task = a.queue.popleft()
        self.sim.sched("exec", a.index, task.name)
        creating = task.name == "__init__"
        if creating:
            if self._inject("create_fail", a.index):
                a.queue.appendleft(task)
                self._die(a, ActorDiedError(f"actor {a.index} died while being created"))
                return
        elif self._inject("crash_before", a.index):
            a.queue.appendleft(task)
            self._die(a, ActorDiedError(f"actor {a.index} died"))
            return

        error = None
        result = None
        args, kwargs = _thaw(task.frozen)
        args = [self._resolve(x) for x in args]
        kwargs = {k: self._resolve(v) for k, v in kwargs.items()}
        sim = self.sim
        saved, saved_proc = get_rng(), sim.proc
        set_rng(a.rng)
        sim.proc = a.index
        try:
            if creating:
                a.instance = a.cls(*args, **kwargs)
            else:
                result = getattr(a.instance, task.name)(*args, **kwargs)
                result = _freeze(result)
        except (Violation, HarnessError):
            raise
        except Exception as exc:
            error = RayTaskError(task.name, "", exc)
            error.__cause__ = exc
            if isinstance(exc, InjectedError):
                self.user_errors += 1
            sim.event("task-error", a.index, task.name, type(exc).__name__)
        finally:
            a.rng = get_rng()
            set_rng(saved)
            sim.proc = saved_proc
        a.n_done += 1
        if self.on_task is not None:
            self.on_task(a, task, error)
        if creating and error is not None:
            self._die(a, ActorDiedError(f"The actor died because of an error raised in its creation task: {error}"))
            return
        if not creating and self._inject("crash_after", a.index):
            a.queue.appendleft(task)
            self._die(a, ActorDiedError(f"actor {a.index} died"))
            return
        if not creating and self._inject("lost_result", a.index):
            result, error = None, ActorUnavailableError(f"actor {a.index} is unavailable")
        self.at(sim.ch.latency(), self._deliver, task.ref, result, error, a.index)
        self._kick(a)

    def _resolve(self, x):
        if isinstance(x, ObjectRef):
            return self.get_one(x, None)
        return x

    def _deliver(self, ref, frozen, error, who):
        self.sim.sched("deliver", who)
        self._finish(ref, frozen=frozen, error=error)

    def _finish(self, ref, frozen=None, error=None):
        e = self.objects[ref._oid]
        if e.ready:
            return
        e.ready = True
        e.frozen = frozen
        e.error = error

    # -- blocking operations ----------------------------------------------------------
    def _maybe_interrupt(self):
        if self.sim.proc == "main" and self._inject("interrupt", "main"):
            raise KeyboardInterrupt("simulated interrupt")

    def get_one(self, ref, deadline):
        e = self.objects[ref._oid]
        while not e.ready:
            self._maybe_interrupt()
            if deadline is not None and (not self.heap or self.heap[0][0] > deadline):
                raise GetTimeoutError("get timed out")
            if not self.step():
                raise Violation("deadlock", f"waiting forever for {ref}: nothing is running in the cluster")
        if e.error is not None:
            err = e.error
            if isinstance(err, RayTaskError):
                raise err.as_instanceof_cause()
            raise err
        if e.frozen is None:
            return None
        return _thaw(e.frozen)

    def get(self, refs, timeout=None):
        deadline = None if timeout is None else self.sim.now + timeout
        if isinstance(refs, ObjectRef):
            return self.get_one(refs, deadline)
        if not isinstance(refs, (list, tuple)):
            raise TypeError(f"ray.get does not accept {type(refs)}")
        return [self.get_one(r, deadline) for r in refs]

    def wait(self, refs, num_returns=1, timeout=None):
        refs = list(refs)
        if len(set(r._oid for r in refs)) != len(refs):
            raise ValueError("Wait requires a list of unique object refs.")
        if num_returns > len(refs) or num_returns <= 0:
            raise ValueError("num_returns cannot be greater than the number of objects provided")

        def ready():
            return [r for r in refs if self.objects[r._oid].ready]

        self._maybe_interrupt()
        if timeout == 0:
            # somebody is polling: time passes while doing so
            if len(ready()) < num_returns:
                if not self.step():
                    raise Violation("deadlock", "polling forever: nothing is running in the cluster")
        else:
            deadline = None if timeout is None else self.sim.now + timeout
            while len(ready()) < num_returns:
                if deadline is not None and (not self.heap or self.heap[0][0] > deadline):
                    break
                if not self.step():
                    raise Violation("deadlock", "waiting forever: nothing is running in the cluster")
                self._maybe_interrupt()
            # the waiting process may wake up late
            if self.eager:
                for _ in range(self.sim.ch.draw(self.eager + 1)):
                    if not self.step():
                        break
        rd = ready()[:num_returns]
        chosen = set(r._oid for r in rd)
        return rd, [r for r in refs if r._oid not in chosen]

    def kill(self, handle):
        a = self.actors[handle._index]
        self.kills += 1
        self.sim.event("kill", a.index)
        if a.alive:
            self._die(a, ActorDiedError(f"actor {a.index} was killed"))

    def drain(self, limit=100000):
        """Let everything which is in flight finish."""
        n = 0
        while n < limit and self.step():
            n += 1


def cluster():
    sim = kernel.current()
    c = getattr(sim, "ray", None)
    if c is None:
        c = sim.ray = Cluster(sim)
    return c


# ------------------------------------------------------------------------ actor handles


class ActorMethod:
    def __init__(self, index, cls, name):
        self._index, self._cls, self._name = index, cls, name

    def remote(self, *args, **kwargs):
        fn = getattr(self._cls, self._name)
        try:
            inspect.signature(fn).bind(None, *args, **kwargs)
        except TypeError as exc:
            raise TypeError(str(exc)) from None
        return cluster().submit(self._index, self._name, args, kwargs)

    def options(self, **kwargs):
        return self

    def __call__(self, *args, **kwargs):
        raise TypeError("Actor methods cannot be called directly.")


class ActorHandle:
    def __init__(self, index, cls):
        object.__setattr__(self, "_index", index)
        object.__setattr__(self, "_cls", cls)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(self._cls, name):
            raise AttributeError(f"'ActorHandle' object has no attribute '{name}'")
        return ActorMethod(self._index, self._cls, name)

    def __reduce__(self):
        return ActorHandle, (self._index, self._cls)

    def __repr__(self):
        return f"Actor({self._index})"

    def __hash__(self):
        return hash(("Actor", self._index))

    def __eq__(self, other):
        return isinstance(other, ActorHandle) and self._index == other._index


class ActorClass:
    def __init__(self, cls, options=None):
        self._cls, self._options = cls, dict(options or {})
        self.__name__ = cls.__name__
        self.__doc__ = cls.__doc__

    def options(self, **kwargs):
        return ActorClass(self._cls, {**self._options, **kwargs})

    def remote(self, *args, **kwargs):
        inspect.signature(self._cls.__init__).bind(None, *args, **kwargs)
        c = cluster()
        if not c.initialized:
            c.init()
        return c.create_actor(self._cls, self._options, args, kwargs)

    def __call__(self, *args, **kwargs):
        raise TypeError("Actors cannot be instantiated directly.")


class RemoteFunction:
    def __init__(self, fn):
        self._fn = fn

    def remote(self, *args, **kwargs):
        h = cluster().create_actor(_FunctionHost, {}, (self._fn,), {})
        return h.run.remote(args, kwargs)


class _FunctionHost:
    def __init__(self, fn):
        self.fn = fn

    def run(self, args, kwargs):
        return self.fn(*args, **kwargs)


def remote(*args, **kwargs):
    def make(x):
        return ActorClass(x, kwargs) if inspect.isclass(x) else RemoteFunction(x)

    if len(args) == 1 and not kwargs and callable(args[0]):
        return make(args[0])
    return make


def _init(self, *args, **kwargs):
    self.init_calls += 1
    self.initialized = True


Cluster.init = _init


def install():
    """Put the simulated ray into `sys.modules`."""
    spec = importlib.util.find_spec("ray")
    real_dir = os.path.dirname(spec.origin)

    ray = types.ModuleType("ray")
    ray.__path__ = []
    ray.__version__ = "simulated"
    ray.remote = remote
    ray.ObjectRef = ObjectRef
    ray.get = lambda refs, timeout=None, **kw: cluster().get(refs, timeout)
    ray.put = _put
    ray.wait = lambda refs, num_returns=1, timeout=None, **kw: cluster().wait(refs, num_returns, timeout)
    ray.kill = lambda actor, no_restart=True: cluster().kill(actor)
    ray.init = lambda *a, **kw: cluster().init(*a, **kw)
    ray.is_initialized = lambda: cluster().initialized
    ray.available_resources = lambda: dict(cluster().resources)
    ray.cluster_resources = lambda: dict(cluster().resources)
    ray.shutdown = lambda *a, **kw: None
    ray.cloudpickle = cloudpickle

    exc = types.ModuleType("ray.exceptions")
    for c in (RayError, RayTaskError, RayActorError, ActorDiedError, ActorUnavailableError, ObjectLostError, GetTimeoutError):
        setattr(exc, c.__name__, c)
    ray.exceptions = exc

    actor = types.ModuleType("ray.actor")
    actor.ActorHandle = ActorHandle
    actor.ActorClass = ActorClass
    ray.actor = actor

    util = types.ModuleType("ray.util")
    util.__path__ = []
    ann = types.ModuleType("ray.util.annotations")

    def _ident(*a, **kw):
        if len(a) == 1 and callable(a[0]) and not kw:
            return a[0]
        return lambda x: x

    ann.DeveloperAPI = _ident
    ann.PublicAPI = _ident
    ray.util = util
    util.annotations = ann
    sys.modules.update(
        {"ray": ray, "ray.exceptions": exc, "ray.actor": actor, "ray.util": util, "ray.util.annotations": ann}
    )
    for name in ("ray._private", "ray._private.usage", "ray._private.usage.usage_lib"):
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = m
    sys.modules["ray._private.usage.usage_lib"].record_library_usage = lambda *a, **kw: None
    path = os.path.join(real_dir, "util", "actor_pool.py")
    sp = importlib.util.spec_from_file_location("ray.util.actor_pool", path)
    mod = importlib.util.module_from_spec(sp)
    sys.modules["ray.util.actor_pool"] = mod
    sp.loader.exec_module(mod)
    util.actor_pool = mod
    util.ActorPool = mod.ActorPool
    return ray


def _put(value):
    c = cluster()
    r = c._new_ref()
    c._finish(r, frozen=_freeze(value))
    return r
