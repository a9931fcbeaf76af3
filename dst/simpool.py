"""A process pool under the simulator: a seeded scheduler decides which worker's task runs next.

Takes the place of the `multiprocessing` module inside pyklip.parallelized. Tasks run in this process, one
at a time, with pickled copies of their arguments (as a real pool would pass them); the order in which they
start and complete, and which of the queued tasks the (simulated) workers pick, come from the seed.
"""
import ctypes
import pickle
import random

CTYPES = {"f": ctypes.c_float, "d": ctypes.c_double}


class Array:
    """Shared memory."""

    def __init__(self, typ, n, lock=True):
        self._buf = (CTYPES.get(typ, typ) * int(n))()

    def get_obj(self):
        return self._buf


class Result:
    def __init__(self, pool, name, fn, args, kwds):
        self.pool, self.name = pool, name
        self.fn, self.args, self.kwds = fn, args, kwds
        self.done = False
        self.value = self.error = None

    def run(self):
        fn, args, kwds = self.fn, pickle.loads(pickle.dumps(self.args)), pickle.loads(pickle.dumps(self.kwds))
        try:
            self.value = fn(*args, **kwds)
        except Exception as e:
            self.error = e
        self.done = True

    def ready(self):
        return self.done

    def wait(self, timeout=None):
        while not self.done:
            self.pool.step()

    def get(self, timeout=None):
        self.wait()
        if self.error is not None:
            raise self.error
        return self.value


class Pool:
    def __init__(self, mp, processes, initializer, initargs):
        self.mp = mp
        self.n = processes or mp.ncpu
        self.queue = []
        self.busy = []
        self.closed = False
        if initializer:
            initializer(*initargs)

    def step(self):
        """One worker finishes one task."""
        while self.queue and len(self.busy) < self.n:
            self.busy.append(self.queue.pop(0))
        k = self.mp.pick(len(self.busy))
        t = self.busy.pop(k)
        self.mp.log.append("%s/%d" % (t.name, k))
        t.run()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = Result(self, "%s#%d" % (getattr(func, "__name__", "f"), self.mp.tasks), func, args, kwds or {})
        self.mp.tasks += 1
        self.queue.append(r)
        # workers may already make progress while the parent goes on submitting
        while self.queue and self.mp.early():
            self.step()
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in iterable]]

    def starmap(self, func, iterable, chunksize=None):
        return [r.get() for r in [self.apply_async(func, tuple(x)) for x in iterable]]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        while rs:
            ready = [r for r in rs if r.done]
            if not ready:
                self.step()
                continue
            r = ready[self.mp.pick(len(ready))]
            rs.remove(r)
            yield r.get()

    def close(self):
        self.closed = True

    def join(self):
        while self.queue or self.busy:
            self.step()

    def terminate(self):
        self.queue, self.busy = [], []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimMP:
    """What a module sees as `multiprocessing`."""

    Array = Array

    def __init__(self, seed, ncpu=4, order="random"):
        self.rng = random.Random(seed)
        self.ncpu = ncpu
        self.order = order
        self.log = []
        self.tasks = 0
        self.pools = []

    def cpu_count(self):
        return self.ncpu

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.pools.append(processes)
        return Pool(self, processes, initializer, initargs)

    def pick(self, n):
        if self.order == "fifo":
            return 0
        if self.order == "lifo":
            return n - 1
        return self.rng.randrange(n)

    def early(self):
        return self.order == "random" and self.rng.random() < .3
