"""One simulated machine: disk + clock + a sequence of process incarnations running real corgidrp."""
import gc
import hashlib
import importlib
import os
import shutil
import sys
import tempfile
import warnings

from . import clock as _clock
from . import fs as _fs
from .fs import SimCrash

SCRATCH_BASE = os.environ.get("DST_SCRATCH") or tempfile.gettempdir()


def purge():
    for m in [m for m in sys.modules if m == "corgidrp" or m.startswith("corgidrp.")]:
        del sys.modules[m]


class World:
    """Context manager. Inside it all file access below `root`, the clock and listing order are simulated."""

    def __init__(self, listing_seed=0, clock_start=1_900_000_000.0, mkhome=True, name=None, home="home"):
        self.base = tempfile.mkdtemp(prefix="dst-", dir=SCRATCH_BASE)
        # a fixed-width name keeps every path (and so every event log) the same length
        self.root = os.path.join(self.base, name or "w")
        os.mkdir(self.root)
        self.root = os.path.realpath(self.root)
        self.home = os.path.join(self.root, home)
        if mkhome:
            os.mkdir(self.home)
        self.fs = _fs.SimFS(self.root, listing_seed=listing_seed)
        self.clock = _clock.SimClock(clock_start)
        self.fs.tick = self.clock.tick
        self._old = {}
        self.boots = 0
        self.crashes = 0

    def __enter__(self):
        self._old = {k: os.environ.get(k) for k in ("HOME",)}
        self._cwd = os.getcwd()
        os.environ["HOME"] = self.home
        self.cwd = os.path.join(self.root, "cwd")
        os.makedirs(self.cwd, exist_ok=True)
        os.chdir(self.cwd)
        self._warn = warnings.catch_warnings()
        self._warn.__enter__()
        warnings.simplefilter("ignore")
        self.clock.install()
        self.fs.install()
        self._getpid = os.getpid
        os.getpid = lambda: 1000 + self.boots
        return self

    def __exit__(self, *exc):
        self.fs.uninstall()
        os.getpid = self._getpid
        _clock.SimClock.uninstall()
        self._warn.__exit__(None, None, None)
        os.chdir(self._cwd)
        for k, v in self._old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        purge()
        shutil.rmtree(self.base, ignore_errors=True)
        return False

    # -------------------------------------------------------------- processes
    def start(self, *modules):
        """A new process: fresh import of corgidrp, nothing in memory survives."""
        purge()
        if self.fs.dead:
            self.fs.revive()
        self.boots += 1
        return [importlib.import_module(m) for m in modules]

    def after_crash(self):
        self.crashes += 1
        purge()
        gc.collect() if self.crashes % 50 == 0 else None
        self.fs.revive()

    def call(self, fn, plan=None):
        """Run fn() as one operation under a fault plan. Returns (status, value)
        with status 'ok' | 'error' (fn raised; value is the exception) | 'crash'."""
        self.fs.begin_op(plan)
        try:
            v = fn()
            st = "ok"
        except SimCrash:
            st, v = "crash", None
        except Exception as e:      # noqa: BLE001 - outcome of the code under test
            st, v = "error", e
        except BaseException as e:  # e.g. SystemExit from the code under test
            if isinstance(e, KeyboardInterrupt):
                raise
            st, v = "error", e
        if self.fs.dead:
            st, v = "crash", None
        self.last_events = self.fs.n
        self.last_fired = list(self.fs.fired)
        self.fs.end_op()
        return st, v

    def quiet(self):
        """Context manager: look at the disk without creating events."""
        return _Quiet(self.fs)


class _Quiet:
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        self.was = self.fs.active, self.fs.dead
        self.fs.active = False

    def __exit__(self, *a):
        self.fs.active = self.was[0]
        return False


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]
