"""The disk seam: what `evotorch.logging` (and whoever else is wired) sees of the file system.

Files live in a real scratch directory which belongs to the simulated run and is removed with
it; opening, writing, flushing, closing and renaming can be made to fail, to be torn or to be
the moment at which the process dies."""

import builtins
import errno
import os
import shutil
import sys
import tempfile

from . import kernel
from .kernel import SimCrash

KINDS = ("open", "write", "torn", "close", "replace", "crash")


class Disk:
    """Scratch directory of a run, with its fault plan."""

    def __init__(self, sim):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.sim = sim
        self.dir = tempfile.mkdtemp(prefix="simdisk_", dir=base)
        self.rate, self.left, self.kinds = 0.0, 0, ()
        self.injected = 0
        sim.cleanup.append(self.close)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def arm(self, budget, rate, kinds=KINDS):
        if self.sim.faults_on:
            self.left, self.rate, self.kinds = budget, rate, kinds

    def disarm(self):
        self.left = 0

    def hit(self, kind):
        if self.left > 0 and kind in self.kinds and self.sim.ch.chance(self.rate):
            self.left -= 1
            self.injected += 1
            self.sim.fault("disk_" + kind)
            return True
        return False

    def owns(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.dir + os.sep)
        except TypeError:
            return False


def fail(code):
    raise OSError(code, os.strerror(code))


class File:
    """A writable file with faults."""

    def __init__(self, disk, f):
        self._disk, self._f = disk, f

    def write(self, data):
        d = self._disk
        if d.hit("write"):
            fail(errno.ENOSPC)
        if d.hit("torn"):
            n = len(data) if not hasattr(data, "nbytes") else data.nbytes
            self._f.write(bytes(data)[: d.sim.ch.draw(n + 1)])
            fail(errno.EIO)
        if d.hit("crash"):
            n = len(data) if not hasattr(data, "nbytes") else data.nbytes
            self._f.write(bytes(data)[: d.sim.ch.draw(n + 1)])
            self._f.flush()
            raise SimCrash("the process dies while writing")
        return self._f.write(data)

    def close(self):
        if not self._f.closed:
            self._f.close()
            if self._disk.hit("close"):
                fail(errno.EIO)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if exc[0] is not None:
            self._f.close()
            return False
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


def disk_of_current():
    return getattr(kernel.SIM, "disk", None) if kernel.SIM is not None else None


def sim_open(path, mode="r", *args, **kw):
    d = disk_of_current()
    if d is None or not d.owns(path) or not any(c in mode for c in "wax+"):
        return builtins.open(path, mode, *args, **kw)
    if d.hit("open"):
        fail(errno.EACCES)
    return File(d, builtins.open(path, mode, *args, **kw))


class OsProxy(type(os)):
    def __getattr__(self, name):
        return getattr(os, name)


def _rename(real):
    def f(a, b, **kw):
        d = disk_of_current()
        if d is not None and d.owns(b):
            if d.hit("replace"):
                fail(errno.EIO)
            if d.hit("crash"):
                raise SimCrash("the process dies before renaming")
        return real(a, b, **kw)

    return f


def install():
    """Wire the modules of evotorch."""
    proxy = OsProxy("os")
    proxy.replace, proxy.rename = _rename(os.replace), _rename(os.rename)
    for name, m in list(sys.modules.items()):
        if name == "evotorch" or name.startswith("evotorch."):
            if not hasattr(m, "open"):
                m.open = sim_open
            if getattr(m, "os", None) is os:
                m.os = proxy


def disk(sim):
    d = getattr(sim, "disk", None)
    if d is None:
        d = sim.disk = Disk(sim)
    return d
