"""Import evotorch with every seam in place.  Import this module before anything else."""

import datetime as _dt
import logging
import os
import sys
import time
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ.setdefault("WANDB_MODE", "disabled")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import gymnasium  # noqa: E402
import numpy as np  # noqa: E402
import pandas  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass

from . import kernel, simray  # noqa: E402

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
if sys.path[0] != REPO_SRC:
    sys.path.insert(0, REPO_SRC)

# ---- the clock

_RealDateTime = _dt.datetime
_real_time = time.time


class _Meta(type(_RealDateTime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDateTime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDateTime)


class SimDateTime(_RealDateTime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if kernel.SIM is None:
            return _RealDateTime.now(tz)
        kernel.SIM.state["clock_reads"] = kernel.SIM.state.get("clock_reads", 0) + 1
        return _RealDateTime.fromtimestamp(kernel.SIM.now, tz or None)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _sim_time():
    if kernel.SIM is None:
        return _real_time()
    return kernel.SIM.now


_dt.datetime = SimDateTime
time.time = _sim_time

simray.install()
from . import backends  # noqa: E402

backends.install()

import evotorch  # noqa: E402
import evotorch.algorithms  # noqa: E402
import evotorch.logging  # noqa: E402
import evotorch.neuroevolution  # noqa: E402
import evotorch.operators  # noqa: E402

if not os.path.abspath(evotorch.__file__).startswith(os.path.abspath(REPO_SRC)):
    raise RuntimeError(f"evotorch was imported from {evotorch.__file__}, not from {REPO_SRC}")

# evotorch has taken the simulated clock; everybody else gets the real class back
_dt.datetime = _RealDateTime


class _SimDateTimeModule(type(_dt)):
    def __getattr__(self, name):
        return getattr(_dt, name)


_shim = _SimDateTimeModule("datetime")
_shim.datetime = SimDateTime
for _name, _mod in list(sys.modules.items()):
    if _name == "evotorch" or _name.startswith("evotorch."):
        for _k, _v in list(vars(_mod).items()):
            if _v is _dt:
                setattr(_mod, _k, _shim)
            elif _v is _RealDateTime:
                setattr(_mod, _k, SimDateTime)

from . import simdisk  # noqa: E402

simdisk.install()
logging.disable(logging.CRITICAL)
