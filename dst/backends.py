"""Simulated experiment trackers (sacred, mlflow, neptune, wandb).

Every call is appended to `sim.tracker` and can be made to fail by `sim.tracker_fault`
(a callable which may raise)."""

import sys
import types

from . import kernel


class TrackerError(Exception):
    """What the simulated tracker raises when it is unavailable."""


def _call(name, *payload):
    sim = kernel.current()
    f = getattr(sim, "tracker_fault", None)
    if f is not None:
        f(name, payload)
    if not hasattr(sim, "tracker"):
        sim.tracker = []
    sim.tracker.append((name,) + payload)


# ---- sacred


class Run:
    def __init__(self):
        self.__dict__["_result"] = None

    def log_scalar(self, name, value, step=None):
        _call("sacred.scalar", name, value, step)

    @property
    def result(self):
        return self._result

    @result.setter
    def result(self, v):
        _call("sacred.result", v)
        self.__dict__["_result"] = v


class Experiment(Run):
    pass


# ---- mlflow


class MlflowClient:
    def log_metric(self, run_id, key, value, timestamp=None, step=None):
        _call("mlflow.client", run_id, key, value, step)


class MlflowRunInfo:
    def __init__(self, run_id):
        self.run_id = run_id


class MlflowRun:
    def __init__(self, run_id):
        self.info = MlflowRunInfo(run_id)


def log_metrics(metrics, step=None, **kw):
    _call("mlflow.metrics", dict(metrics), step)


def log_metric(key, value, step=None, **kw):
    _call("mlflow.metrics", {key: value}, step)


# ---- neptune


class NeptuneSeries:
    def __init__(self, run, key):
        self.run, self.key = run, key

    def log(self, value, step=None, **kw):
        _call("neptune", self.run.name, self.key, value, step)

    append = log


class NeptuneRun:
    def __init__(self, name="run", **kw):
        self.name = name
        self.kw = kw

    def __getitem__(self, key):
        return NeptuneSeries(self, key)

    def stop(self):
        pass


def neptune_init_run(**kw):
    _call("neptune.init", tuple(sorted(kw.items())))
    return NeptuneRun("created", **kw)


# ---- wandb


def wandb_init(**kw):
    _call("wandb.init", tuple(sorted(kw.items())))


def wandb_log(data, step=None, **kw):
    _call("wandb.log", dict(data), step)


def install():
    sacred = types.ModuleType("sacred")
    sacred.__path__ = []
    srun = types.ModuleType("sacred.run")
    sacred.Experiment, srun.Run, sacred.run = Experiment, Run, srun

    mlflow = types.ModuleType("mlflow")
    mlflow.__path__ = []
    mtrack = types.ModuleType("mlflow.tracking")
    ment = types.ModuleType("mlflow.entities")
    mtrack.MlflowClient, ment.Run = MlflowClient, MlflowRun
    mlflow.tracking, mlflow.entities = mtrack, ment
    mlflow.MlflowClient = MlflowClient
    mlflow.log_metrics, mlflow.log_metric = log_metrics, log_metric

    neptune = types.ModuleType("neptune")
    neptune.__version__ = "1.14.0"
    neptune.Run, neptune.init_run = NeptuneRun, neptune_init_run

    wandb = types.ModuleType("wandb")
    wandb.init, wandb.log = wandb_init, wandb_log
    sys.modules.update(
        {
            "sacred": sacred,
            "sacred.run": srun,
            "mlflow": mlflow,
            "mlflow.tracking": mtrack,
            "mlflow.entities": ment,
            "neptune": neptune,
            "wandb": wandb,
        }
    )
