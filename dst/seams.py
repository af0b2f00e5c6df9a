"""Simulated disk, clock and interrupts.

SimDisk interposes on Python's file operations below one scratch directory.
The files are real, so loading needs no seam; every mutation (open for
writing, each write that reaches the file, fsync, close, rename, remove, mkdir)
is one numbered operation, and a plan says at which operation what happens:

  crash      the process dies before the operation (or, for a write, after a
             random prefix): everything later is refused, Python's own buffers
             are lost, unwinding code cannot touch the disk any more
  powerloss  like crash, and data not fsynced is lost or torn as well
  eio        the operation fails with EIO
  enospc     this and all later writes fail with ENOSPC until lifted
  short      the write takes only part of the data (legal for a raw write)
"""
import builtins
import errno
import io
import os
import shutil
import stat
import tempfile


class SimCrash(BaseException):
    """the process is gone"""


class _Raw(io.RawIOBase):
    def __init__(self, disk, path, fd, readable):
        self.disk, self.path, self.fd, self._rd = disk, path, fd, readable
        self.name = path

    def fileno(self):
        return self.fd

    def writable(self):
        return True

    def readable(self):
        return self._rd

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def truncate(self, size=None):
        self.disk.op("truncate", self.path)
        size = self.tell() if size is None else size
        os.ftruncate(self.fd, size)
        return size

    def write(self, b):
        b = bytes(b)
        n = self.disk.op("write", self.path, len(b))
        k = len(b) if n is None else n
        done = 0
        while done < k:
            done += os.write(self.fd, b[done:k])
        self.disk.dirty(self.fd)
        if n is not None and self.disk.frozen:
            raise SimCrash()
        return k

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.disk.fds.pop(self.fd, None)
            try:
                os.close(self.fd)
            except OSError:
                pass


class SimDisk:
    def __init__(self, ch=None):
        self.root = tempfile.mkdtemp(prefix="dstdisk_")
        self.ch = ch
        self.n = 0
        self.log = []
        self.plan = {}  # op number -> fault
        self.full = False
        self.frozen = False
        self.power = False
        self.durable = {}  # (dev, ino) -> bytes
        self.inodes = {}
        self.injected = []
        self.fds = {}
        self.on_op = None
        self.installed = False

    # -- decisions ----------------------------------------------------------
    def op(self, kind, path, size=0):
        """Returns None (do it) or, for a write, how many bytes to take."""
        if self.frozen:
            raise SimCrash()
        self.n += 1
        self.log.append((kind, os.path.relpath(path, self.root), size))
        if self.on_op is not None:
            self.on_op(kind, path)
        f = self.plan.get(self.n)
        if f is None:
            if self.full and kind in ("write", "open", "mkdir"):
                raise OSError(errno.ENOSPC, "no space left on device", path)
            return None
        self.injected.append((f, kind))
        if f in ("crash", "powerloss"):
            self.frozen = True
            self.power = f == "powerloss"
            if kind == "write" and size > 1 and self.ch is not None:
                k = self.ch.choose("disk.torn", 4)
                if k:
                    return [1, size // 2, size][k - 1]
            raise SimCrash()
        if f == "eio":
            raise OSError(errno.EIO, "input/output error", path)
        if f == "enospc":
            self.full = True
            if kind == "write" and size > 1:
                return size // 2
            raise OSError(errno.ENOSPC, "no space left on device", path)
        if f == "short":
            return max(1, size // 2) if kind == "write" else None
        raise ValueError(f)

    def dirty(self, fd):
        st = os.fstat(fd)
        self.inodes.setdefault((st.st_dev, st.st_ino), True)

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def settle(self):
        """After a crash: what the disk looks like when the machine is up."""
        if self.power:
            for base, _, files in self.walk():
                for f in files:
                    p = os.path.join(base, f)
                    st = os.stat(p)
                    key = (st.st_dev, st.st_ino)
                    if key not in self.inodes:
                        continue
                    with self._open(p, "rb") as fh:
                        now = fh.read()
                    keep = self.durable.get(key, b"")
                    if now == keep:
                        continue
                    how = self.ch.choose("disk.lost", 3) if self.ch else 0
                    if how == 1 and now.startswith(keep):
                        keep = now[:(len(keep) + len(now)) // 2]
                    elif how == 2:
                        keep = now
                    with self._open(p, "wb") as fh:
                        fh.write(keep)
        self.frozen = self.power = self.full = False
        self.plan = {}

    def walk(self):
        return list(os.walk(self.root))

    # -- interposition ------------------------------------------------------
    def install(self):
        import torch
        self._open = io.open
        o = self.o = dict(
            open=builtins.open, io_open=io.open, os_open=os.open,
            replace=os.replace, rename=os.rename, remove=os.remove,
            unlink=os.unlink, mkdir=os.mkdir, fsync=os.fsync,
            fdatasync=os.fdatasync, truncate=os.truncate, rmdir=os.rmdir,
            link=os.link, symlink=os.symlink,
            save=torch.save, ssave=torch.serialization.save)
        disk = self

        def sopen(file, mode="r", buffering=-1, encoding=None, errors=None,
                  newline=None, closefd=True, opener=None):
            w = any(c in mode for c in "wax+")
            if isinstance(file, int):
                if file not in disk.fds or not w:
                    return o["io_open"](file, mode, buffering, encoding,
                                        errors, newline, closefd, opener)
                path, fd = disk.fds[file], file
            else:
                if not w or not disk.inside(file):
                    return o["io_open"](file, mode, buffering, encoding,
                                        errors, newline, closefd, opener)
                path = os.path.realpath(os.fspath(file))
                disk.op("open", path)
                fl = os.O_RDWR | os.O_CLOEXEC
                if "w" in mode:
                    fl |= os.O_CREAT | os.O_TRUNC
                elif "x" in mode:
                    fl |= os.O_CREAT | os.O_EXCL
                elif "a" in mode:
                    fl |= os.O_CREAT | os.O_APPEND
                if opener is not None:
                    fd = opener(path, fl)
                else:
                    fd = o["os_open"](path, fl, 0o666)
                disk.fds[fd] = path
                disk.dirty(fd)
                if "w" in mode:
                    st = os.fstat(fd)
                    disk.durable[(st.st_dev, st.st_ino)] = b""
                elif (k := os.fstat(fd)).st_size:
                    with o["io_open"](path, "rb") as fh:
                        disk.durable.setdefault((k.st_dev, k.st_ino),
                                                fh.read())
            raw = _Raw(disk, path, fd, "+" in mode)
            if buffering == 0:
                return raw
            if "+" in mode:
                buf = io.BufferedRandom(raw)
            else:
                buf = io.BufferedWriter(raw)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if dir_fd is not None or not w or not disk.inside(path):
                return o["os_open"](path, flags, mode, dir_fd=dir_fd)
            disk.op("open", os.path.realpath(path))
            fd = o["os_open"](path, flags, mode)
            disk.fds[fd] = os.path.realpath(path)
            disk.dirty(fd)
            if flags & os.O_TRUNC:
                st = os.fstat(fd)
                disk.durable[(st.st_dev, st.st_ino)] = b""
            return fd

        def two(name):
            def f(src, dst, **k):
                if disk.inside(src) or disk.inside(dst):
                    disk.op(name, os.path.realpath(dst))
                return o[name](src, dst, **k)
            return f

        def one(name, label):
            def f(path, *a, **k):
                if not isinstance(path, int) and disk.inside(path):
                    disk.op(label, os.path.realpath(path))
                return o[name](path, *a, **k)
            return f

        def sync(name):
            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n in disk.fds:
                    disk.op("fsync", disk.fds[n])
                    st = os.fstat(n)
                    with o["io_open"](f"/proc/self/fd/{n}", "rb") as fh:
                        disk.durable[(st.st_dev, st.st_ino)] = fh.read()
                    return None
                if stat.S_ISDIR(os.fstat(n).st_mode):
                    return None
                return o[name](fd)
            return f

        def save(obj, f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and disk.inside(f):
                # the C++ writer cannot be interposed: same bytes, our file
                with sopen(f, "wb") as fh:
                    return o["save"](obj, fh, *a, **k)
            return o["save"](obj, f, *a, **k)

        builtins.open = io.open = sopen
        os.open = os_open
        os.replace, os.rename = two("replace"), two("rename")
        os.link, os.symlink = two("link"), two("symlink")
        os.remove = one("remove", "remove")
        os.unlink = one("unlink", "remove")
        os.mkdir = one("mkdir", "mkdir")
        os.rmdir = one("rmdir", "remove")
        os.truncate = one("truncate", "truncate")
        os.fsync, os.fdatasync = sync("fsync"), sync("fdatasync")
        torch.save = torch.serialization.save = save
        self.installed = True
        return self

    def uninstall(self):
        if not self.installed:
            return
        import torch
        o = self.o
        builtins.open, io.open, os.open = o["open"], o["io_open"], o["os_open"]
        for k in ("replace", "rename", "remove", "unlink", "mkdir", "fsync",
                  "fdatasync", "truncate", "rmdir", "link", "symlink"):
            setattr(os, k, o[k])
        torch.save, torch.serialization.save = o["save"], o["ssave"]
        self.installed = False

    def destroy(self):
        self.uninstall()
        shutil.rmtree(self.root, ignore_errors=True)


class Interrupt:
    """Raises KeyboardInterrupt at the k-th traced line once armed.

    A signal is delivered between two bytecodes of Python code; the trace
    function raising in a frame does the same, but deterministically.
    """
    def __init__(self, roots):
        self.roots = tuple(os.path.realpath(r) for r in roots)
        self.cache = {}
        self.count = 0
        self.at = None
        self.where = None
        self.armed = False

    def wanted(self, fn):
        v = self.cache.get(fn)
        if v is None:
            v = self.cache[fn] = os.path.realpath(fn).startswith(self.roots)
        return v

    def _line(self, frame, event, arg):
        if event == "line" and self.armed:
            self.count += 1
            if self.count == self.at:
                self.where = (os.path.basename(frame.f_code.co_filename),
                              frame.f_code.co_name)
                self.armed = False
                raise KeyboardInterrupt()
        return self._line

    def _call(self, frame, event, arg):
        return self._line if self.wanted(frame.f_code.co_filename) else None

    def __enter__(self):
        import sys
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        import sys
        sys.settrace(self.old)


class SimClock:
    """time.time and friends tell what the simulator wants: any start, any
    rate, jumps forwards and backwards."""
    NAMES = ("time", "monotonic", "perf_counter", "process_time")

    def __init__(self, seed, start, rate, jumps):
        import random
        import time
        self.rng = random.Random(seed)
        self.now, self.rate, self.jumps = float(start), rate, jumps
        self.reads = self.jumped = 0
        self.span = 0.
        self.mod = time
        self.real = {}

    def read(self):
        self.reads += 1
        d = self.rate * self.rng.random()
        if self.rng.random() < self.jumps:
            self.jumped += 1
            d = self.rng.choice([-1e9, -3600., 3600., 1e6, -1e-3, 1e12])
        self.now += d
        self.span += abs(d)
        return self.now

    def __enter__(self):
        for n in self.NAMES:
            self.real[n] = getattr(self.mod, n)
            setattr(self.mod, n, self.read)
            ns = n + "_ns"
            if hasattr(self.mod, ns):
                self.real[ns] = getattr(self.mod, ns)
                setattr(self.mod, ns, lambda: int(self.read() * 1e9))
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(self.mod, n, f)


class KeyedSolver:
    """Chooser for the simulated solver whose answer to a program is a
    function of the program (and of how often it was asked) alone."""
    def __init__(self, seed):
        import random
        self.seed, self.seen = seed, {}
        self.rng = random.Random(seed)

    def begin_solve(self, p):
        import hashlib
        import random
        h = hashlib.sha1()
        for a in (p.lb, p.ub, p.isint, p.c, p.start, p.idx, p.val, p.rlo,
                  p.rup, p.starts):
            h.update(a.tobytes())
        h.update(repr((p.sign, p.const)).encode())
        k = h.hexdigest()
        self.seen[k] = self.seen.get(k, 0) + 1
        self.rng = random.Random(f"{self.seed}/{k}/{self.seen[k]}")

    def choose(self, label, n):
        return self.rng.randrange(n) if n > 1 else 0

    def flip(self, label, p):
        return p > 0 and self.rng.random() < p

    def real(self, label):
        return self.rng.random()


class Tape:
    """Lets the same scenario be built several times from one stream of
    choices."""
    def __init__(self, ch):
        self.ch, self.rec, self.pos = ch, [], None

    def again(self):
        t = Tape(self.ch)
        t.rec, t.pos = self.rec, 0
        return t

    def _do(self, name, label, a):
        import numpy as np
        if self.pos is None:
            n0 = len(self.ch.log)
            v = getattr(self.ch, name)(label, *a)
            if name == "rngstate":
                v = self.ch.log[n0][1]
            self.rec.append((name, label, a, v))
        else:
            n, lb, b, v = self.rec[self.pos]
            self.pos += 1
            if (n, lb, b) != (name, label, a):
                raise RuntimeError(f"tape: {label} asked, {lb} recorded")
        return np.random.RandomState(v) if name == "rngstate" else v

    def choose(self, label, n):
        return self._do("choose", label, (n, ))

    def flip(self, label, p):
        return self._do("flip", label, (p, ))

    def real(self, label):
        return self._do("real", label, ())

    def rngstate(self, label):
        return self._do("rngstate", label, ())

    def pick(self, label, seq):
        return seq[self.choose(label, len(seq))]

    def int(self, label, lo, hi):
        return lo + self.choose(label, hi - lo + 1)


class Coop:
    """Threads that run one at a time and hand over only where the simulator
    lets them; the global random states travel with each thread."""
    def __init__(self, ch, fns):
        import threading
        self.ch = ch
        self.cv = threading.Condition()
        self.alive = list(range(len(fns)))
        self.turn = None
        self.out = [None] * len(fns)
        self.state = [None] * len(fns)
        self.ids = {}
        self.switches = 0
        self.threads = [
            threading.Thread(target=self._main, args=(i, f), daemon=True)
            for i, f in enumerate(fns)
        ]

    @staticmethod
    def world():
        import random

        import numpy as np
        import torch
        from gurobipy import hooks
        return (torch.get_rng_state(), np.random.get_state(),
                random.getstate(), hooks.chooser, hooks.policy)

    @staticmethod
    def set_world(w):
        import random

        import numpy as np
        import torch
        from gurobipy import hooks
        torch.set_rng_state(w[0])
        np.random.set_state(w[1])
        random.setstate(w[2])
        hooks.chooser, hooks.policy = w[3], w[4]

    def _main(self, i, f):
        import threading
        self.ids[threading.get_ident()] = i
        with self.cv:
            while self.turn != i:
                self.cv.wait()
        try:
            self.out[i] = f()
        finally:
            with self.cv:
                self.alive.remove(i)
                self.turn = self._pick()
                self.cv.notify_all()

    def _pick(self):
        if not self.alive:
            return -1
        return self.alive[self.ch.choose("switch", len(self.alive))]

    def point(self):
        """A place where another thread may go on."""
        import threading
        i = self.ids.get(threading.get_ident())
        if i is None:
            return
        with self.cv:
            nxt = self._pick()
            if nxt == i:
                return
            self.switches += 1
            w = self.world()
            self.turn = nxt
            self.cv.notify_all()
            while self.turn != i:
                self.cv.wait()
            self.set_world(w)

    def run(self):
        for t in self.threads:
            t.start()
        with self.cv:
            self.turn = self._pick()
            self.cv.notify_all()
        for t in self.threads:
            t.join()
        return self.out
