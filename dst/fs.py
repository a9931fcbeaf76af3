"""Simulated storage: a seam over every file-system call made below one scratch root.

The bytes live in a real scratch directory, but every call that reaches it from Python
(`open`, `os.*`, and so pandas, astropy, json, configparser, shutil, pathlib, tempfile) goes
through this layer, which numbers the calls ("events"), and at chosen events injects
process death, torn writes, disk-full, I/O errors or (on death) loss of unsynced data.
Directory listings are returned in a seeded order.  Nothing here draws from a real clock
or an unseeded generator.
"""
import builtins
import errno
import io
import os
import random
import stat

_real = dict(
    open=builtins.open, io_open=io.open, os_open=os.open, os_write=os.write, os_close=os.close,
    fsync=os.fsync, fdatasync=os.fdatasync, replace=os.replace, rename=os.rename, remove=os.remove,
    unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir, truncate=os.truncate, ftruncate=os.ftruncate,
    listdir=os.listdir, scandir=os.scandir, link=os.link, symlink=os.symlink, stat=os.stat,
    sendfile=getattr(os, "sendfile", None), copy_file_range=getattr(os, "copy_file_range", None),
)


class SimCrash(BaseException):
    """The simulated process has died."""


class _ScanIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self._it = iter(())


MUTATING = {"open_w", "write", "fsync", "replace", "unlink", "mkdir", "rmdir", "truncate", "link"}
# error kinds that make sense at each event kind
ERRS_FOR = {
    "open_w": ["ENOSPC", "EIO", "EMFILE", "EACCES"], "write": ["ENOSPC", "EIO"], "fsync": ["EIO", "ENOSPC"],
    "replace": ["EIO", "ENOSPC", "EACCES"], "unlink": ["EIO", "EACCES"], "mkdir": ["ENOSPC", "EIO", "EACCES"], "rmdir": ["EIO"],
    "truncate": ["EIO", "ENOSPC"], "link": ["EIO"], "open_r": ["EIO", "EMFILE", "EACCES"], "listdir": ["EIO", "EACCES"],
}


class SimFS:
    """One simulated disk rooted at `root` (a real directory)."""

    def __init__(self, root, listing_seed=0, ignore=()):
        self.root = os.path.realpath(root)
        self.ignore = tuple(os.path.realpath(p) for p in ignore)
        self.active = False
        self.dead = False
        self.gen = 0            # incarnation number; file objects of dead incarnations are inert
        self.n = 0              # events since begin_op
        self.kinds = []         # kinds of events since begin_op
        self.plan = {}          # event number -> fault dict
        self.ns = 0             # look-ups of existing files (stat) since begin_op, counted apart from the events
        self.stat_plan = {}
        self.full = False       # persistent disk-full until end_op
        self.fired = []         # faults that fired in this op
        self.fds = {}           # fd -> path of writable descriptors
        self.unsynced = {}      # inode -> durable length
        self.listing_seed = listing_seed
        self.listings = 0
        self.observer = None    # called after every mutating event
        self.log = []           # event log (deterministic: relative paths only)
        self.counts = {}        # event kind -> total
        self.fault_counts = {}
        self.tick = None        # callable advancing the simulated clock

    # ------------------------------------------------------------ control
    def begin_op(self, plan=None):
        self.n = 0
        self.kinds = []
        self.fired = []
        self.full = False
        self.plan = {int(f["at"]): f for f in (plan or []) if f["kind"] != "stat"}
        self.ns = 0
        self.stat_plan = {int(f["at"]): f for f in (plan or []) if f["kind"] == "stat"}
        self.unsynced = {}

    def end_op(self):
        self.plan = {}
        self.stat_plan = {}
        self.full = False
        self.unsynced = {}

    def kill(self, power=None):
        """Process death decided by the driver (between operations)."""
        self.dead = True
        if power is not None:
            self._power_loss(power)

    def revive(self):
        self.dead = False
        self.gen += 1
        self.fds = {}
        self.end_op()

    def _inside(self, path):
        if not self.active or isinstance(path, int):
            return None
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return None
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            for ig in self.ignore:
                if p.startswith(ig):
                    return None
            return p
        rp = os.path.realpath(p)
        if rp == self.root or rp.startswith(self.root + os.sep):
            return rp
        return None

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def _count(self, f):
        k = f["kind"] if f["kind"] not in ("error", "stat") else f.get("errno", "EIO")
        k = "stat " + k if f["kind"] == "stat" else k
        self.fault_counts[k] = self.fault_counts.get(k, 0) + 1
        self.fired.append(f)

    def _power_loss(self, frac):
        for ino, (path, durable) in sorted(self.unsynced.items(), key=lambda t: t[1][0]):
            for cand in self._paths_of(ino):
                size = _real["stat"](cand).st_size
                keep = durable + int(max(0, size - durable) * frac)
                if keep < size:
                    _real["truncate"](cand, keep)
                    self.fault_counts["lost_unsynced"] = self.fault_counts.get("lost_unsynced", 0) + 1
        self.unsynced = {}

    def _paths_of(self, ino):
        out = []
        stack = [self.root]
        while stack:
            d = stack.pop()
            with _real["scandir"](d) as it:
                for e in it:
                    if e.is_dir(follow_symlinks=False):
                        stack.append(e.path)
                    elif e.is_file(follow_symlinks=False):
                        st = e.stat(follow_symlinks=False)
                        if st.st_ino == ino:
                            out.append(e.path)
        return out

    def _event(self, kind, path, do=None, size=None, partial=None):
        """Account for one storage call; perform it through `do` unless a fault says otherwise."""
        if self.dead:
            raise SimCrash()
        n = self.n
        self.n += 1
        self.kinds.append(kind)
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.tick:
            self.tick(0.0002)
        f = self.plan.get(n)
        if f is None and self.full and kind in ("open_w", "write", "mkdir", "fsync"):
            f = {"kind": "error", "errno": "ENOSPC", "at": n, "cont": True}
        self.log.append("%d %s %s%s" % (n, kind, self.rel(path), "" if f is None else " !" + f["kind"]))
        if f is None:
            r = do() if do else None
            if self.observer and kind in MUTATING:
                self._observe()
            return r
        k = f["kind"]
        if k == "crash":
            self._count(f)
            when = f.get("when", "before")
            if kind == "write" and partial and when == "torn":
                partial(f.get("frac", 0.5))
            elif when == "after" and do:
                do()
            self.dead = True
            if f.get("power") is not None:
                self._power_loss(f["power"])
            raise SimCrash()
        if k == "full":
            self._count(f)
            self.full = True
            if kind == "write" and partial:
                partial(f.get("frac", 0.5))
            if kind in ("open_w", "write", "mkdir", "fsync"):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            return do() if do else None
        # plain error
        en = f.get("errno", "EIO")
        if en not in ERRS_FOR.get(kind, ["EIO"]):
            en = ERRS_FOR.get(kind, ["EIO"])[0]
        if not f.get("cont"):
            self._count(dict(f, errno=en))
        if kind == "write" and partial:
            partial(f.get("frac", 0.0))
        code = getattr(errno, en)
        raise OSError(code, os.strerror(code), path)

    def _observe(self):
        obs, self.observer = self.observer, None
        was, self.active = self.active, False
        try:
            obs()
        finally:
            self.active = was
            self.observer = obs

    def _track_open(self, path, trunc):
        try:
            st = _real["stat"](path)
        except OSError:
            return
        if trunc or st.st_size == 0:
            self.unsynced[st.st_ino] = (path, 0)
        else:
            self.unsynced.setdefault(st.st_ino, (path, st.st_size))

    # ------------------------------------------------------------ patched calls
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if isinstance(file, int) and self.active and file in self.fds:
            raw = SimRaw(self, self.fds[file], mode, fd=file, closefd=closefd)
            return self._wrap(raw, mode, buffering, encoding, errors, newline)
        p = self._inside(file)
        if p is None or opener is not None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("t", "").replace("b", "").replace("U", "")
        if m == "r":
            def do():
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd)
            return self._event("open_r", p, do)
        raw = SimRaw(self, p, mode)
        return self._wrap(raw, mode, buffering, encoding, errors, newline)

    def _wrap(self, raw, mode, buffering, encoding, errors, newline):
        if "b" in mode and buffering == 0:
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        elif raw.writable():
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t

    def sim_os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self._inside(path)
        if p is None:
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            def do():
                fd = _real["os_open"](path, flags, mode)
                self.fds[fd] = p
                self._track_open(p, bool(flags & os.O_TRUNC))
                return fd
            return self._event("open_w", p, do)

        def do_r():
            fd = _real["os_open"](path, flags, mode)
            if stat.S_ISDIR(os.fstat(fd).st_mode):
                self.fds[fd] = p
            return fd
        return do_r()

    def sim_os_write(self, fd, data):
        if not self.active or fd not in self.fds:
            return _real["os_write"](fd, data)
        return self.write_fd(fd, self.fds[fd], data)

    def write_fd(self, fd, path, data):
        data = bytes(memoryview(data).cast("B")) if not isinstance(data, bytes) else data

        def do():
            view = memoryview(data)
            done = 0
            while done < len(view):
                done += _real["os_write"](fd, view[done:])
            return done

        def partial(frac):
            k = int(len(data) * frac)
            if k:
                _real["os_write"](fd, data[:k])
        return self._event("write", path, do, len(data), partial)

    def sim_os_close(self, fd):
        self.fds.pop(fd, None)
        return _real["os_close"](fd)

    def _fd_of(self, fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def sim_fsync(self, fd):
        fd = self._fd_of(fd)
        if not self.active or fd not in self.fds:
            return _real["fsync"](fd)
        p = self.fds[fd]

        def do():
            st = os.fstat(fd)
            self.unsynced.pop(st.st_ino, None)
        return self._event("fsync", p, do)

    def _two(self, name, kind):
        real = _real[name]

        def call(src, dst, **kw):
            a, b = self._inside(src), self._inside(dst)
            if a is None and b is None:
                return real(src, dst, **kw)

            def do():
                r = real(src, dst, **kw)
                if a is not None and b is not None:
                    try:
                        ino = _real["stat"](dst).st_ino
                        if ino in self.unsynced:
                            self.unsynced[ino] = (b, self.unsynced[ino][1])
                    except OSError:
                        pass
                return r
            return self._event(kind, b or a, do)
        return call

    def _one(self, name, kind):
        real = _real[name]

        def call(path, *a, **kw):
            p = self._inside(path)
            if p is None:
                return real(path, *a, **kw)
            return self._event(kind, p, lambda: real(path, *a, **kw))
        return call

    def _shuffle(self, names, p):
        names = sorted(names)
        self.listings += 1
        random.Random("%s|%s|%d" % (self.listing_seed, self.rel(p), self.listings)).shuffle(names)
        return names

    def sim_stat(self, path, *a, **kw):
        """Looking up an existing file may fail, too (an unreachable network disk, say)."""
        if not self.stat_plan or self.dead or not self.active or isinstance(path, int):
            return _real["stat"](path, *a, **kw)
        p = self._inside(path)
        r = _real["stat"](path, *a, **kw)
        if p is None:
            return r
        n = self.ns
        self.ns += 1
        f = self.stat_plan.get(n)
        if f is None:
            return r
        self.log.append("%d stat %s !" % (n, self.rel(p)))
        self._count(f)
        code = getattr(errno, f.get("errno", "EIO"))
        raise OSError(code, os.strerror(code), os.fspath(path))

    def sim_listdir(self, path="."):
        p = self._inside(path)
        if p is None:
            return _real["listdir"](path)
        return self._event("listdir", p, lambda: self._shuffle(_real["listdir"](path), p))

    def sim_scandir(self, path="."):
        p = self._inside(path)
        if p is None:
            return _real["scandir"](path)

        def do():
            with _real["scandir"](path) as it:
                ents = {e.name: e for e in it}
            return _ScanIter([ents[n] for n in self._shuffle(ents, p)])
        return self._event("listdir", p, do)

    # ------------------------------------------------------------ install
    def install(self):
        import shutil
        builtins.open = self.sim_open
        io.open = self.sim_open
        os.open = self.sim_os_open
        os.write = self.sim_os_write
        os.close = self.sim_os_close
        os.fsync = self.sim_fsync
        os.fdatasync = self.sim_fsync
        os.replace = self._two("replace", "replace")
        os.rename = self._two("rename", "replace")
        os.link = self._two("link", "link")
        os.symlink = self._two("symlink", "link")
        os.remove = self._one("remove", "unlink")
        os.unlink = self._one("unlink", "unlink")
        os.mkdir = self._one("mkdir", "mkdir")
        os.rmdir = self._one("rmdir", "rmdir")
        os.truncate = self._one("truncate", "truncate")
        os.listdir = self.sim_listdir
        os.scandir = self.sim_scandir
        os.stat = self.sim_stat
        shutil._USE_CP_SENDFILE = False
        self.active = True

    def uninstall(self):
        self.active = False
        builtins.open = _real["open"]
        io.open = _real["io_open"]
        for n in ("write", "open", "close"):
            setattr(os, n, _real["os_" + n])
        for n in ("fsync", "fdatasync", "replace", "rename", "link", "symlink", "remove", "unlink", "mkdir",
                  "rmdir", "truncate", "listdir", "scandir", "stat"):
            setattr(os, n, _real[n])


class SimRaw(io.RawIOBase):
    """Unbuffered file whose every write is a simulator event."""

    def __init__(self, fs, path, mode, fd=None, closefd=True):
        super().__init__()
        self.fs = fs
        self.gen = fs.gen
        self.path = path
        self.name = path
        self._m = mode.replace("t", "").replace("b", "")
        self.mode = "rb+" if "+" in mode else ("r" if self._m.startswith("r") else mode[0]) + "b"
        self._closefd = closefd
        self._fd = None
        if fd is not None:
            self._fd = fd
            return
        flags = os.O_CLOEXEC
        c = self._m[0]
        flags |= os.O_RDWR if "+" in mode else os.O_WRONLY
        if c == "w":
            flags |= os.O_CREAT | os.O_TRUNC
        elif c == "x":
            flags |= os.O_CREAT | os.O_EXCL
        elif c == "a":
            flags |= os.O_CREAT | os.O_APPEND

        def do():
            self._fd = _real["os_open"](path, flags, 0o666)
            fs.fds[self._fd] = path
            fs._track_open(path, c == "w")
        fs._event("open_w", path, do)

    def _inert(self):
        return self.fs.dead or self.gen != self.fs.gen

    def readable(self):
        return "+" in self._m or self._m.startswith("r")

    def writable(self):
        return "+" in self._m or not self._m.startswith("r")

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def readinto(self, b):
        data = os.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, data):
        if self._inert():
            return len(memoryview(data).cast("B"))
        return self.fs.write_fd(self._fd, self.path, data)

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if self._inert():
            return size
        self.fs._event("truncate", self.path, lambda: _real["ftruncate"](self._fd, size))
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._fd is not None and self._closefd:
                    self.fs.fds.pop(self._fd, None)
                    try:
                        _real["os_close"](self._fd)
                    except OSError:
                        pass
