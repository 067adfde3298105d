"""The disk seam: every file operation below one directory goes through ``hook``.

Only Python-level file access is intercepted (GDAL and OpenCV do their own C I/O, see
``limits.py``). Each operation on a path below ``root`` is announced to ``hook(op)``
before it happens; the hook returns an action:

    None                     carry on
    ("errno", n)             fail with OSError(n), nothing done
    ("partial", k, n)        write only k bytes, then fail with OSError(n)
    ("short", k)             write only k bytes and return k (legal short write)
    ("kill", k)              write only k bytes (writes only), then die at once

Dying is a real ``SIGKILL`` of the (forked) process: only what reached the files stays.
"""
import builtins
import errno
import io
import os
import shutil
import signal
import threading
import types

REAL = types.SimpleNamespace(
    **{
        n: getattr(os, n)
        for n in (
            "open write close fsync fdatasync rename replace unlink remove mkdir rmdir link symlink "
            "truncate ftruncate stat lstat listdir scandir access read readlink kill getpid utime chmod pipe "
            "fork _exit waitpid sendfile"
        ).split()
    }
)
REAL.bopen = builtins.open
REAL.ioopen = io.open


def die():
    REAL.kill(REAL.getpid(), signal.SIGKILL)
    while True:  # pragma: no cover
        REAL._exit(137)


class SimRaw(io.RawIOBase):
    """Raw file whose writes, reads, syncs and close are disk operations of the simulator."""

    def __init__(self, raw, path, seam):
        self._raw, self._path, self._seam = raw, path, seam
        self.name = raw.name
        self.mode = raw.mode

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def seekable(self):
        return self._raw.seekable()

    def fileno(self):
        return self._raw.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._raw.seek(*a)

    def tell(self):
        return self._raw.tell()

    def truncate(self, size=None):
        self._seam.op("truncate", self._path)
        return self._raw.truncate(size)

    def readinto(self, b):
        self._seam.op("read", self._path)
        return self._raw.readinto(b)

    def write(self, b):
        b = bytes(b)
        act = self._seam.op("write", self._path, n=len(b))
        if act:
            k = max(0, min(act[1], len(b)))
            if act[0] == "short":
                k = max(1, k)
                return self._raw.write(b[:k])
            done = 0
            while done < k:
                done += self._raw.write(b[done:k])
            if act[0] == "partial":
                raise OSError(act[2], os.strerror(act[2]))
            die()
        return self._raw.write(b)

    def close(self):
        if not self.closed:
            try:
                if self._raw.writable():
                    self._seam.op("close", self._path)
            finally:
                self._seam.fds.pop(self._fd(), None)
                self._raw.close()
                super().close()

    def _fd(self):
        try:
            return self._raw.fileno()
        except ValueError:
            return -1


class Disk:
    """Installable disk seam."""

    def __init__(self, root, bufsize=None):
        self.root = os.path.realpath(root)
        self.hook = None
        self.fds = {}
        self.bufsize = bufsize
        self.encoding = None  # what the locale would give
        self.tls = threading.local()

    # -- helpers --

    def inside(self, path):
        if self.hook is None or isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p)) if not p.startswith("/") else os.path.normpath(p)
        if p == self.root or p.startswith(self.root + "/"):
            return p
        return None

    def op(self, kind, path, dst=None, n=None):
        """Announce an operation; apply errors and deaths; return actions only writes interpret."""
        if self.hook is None or getattr(self.tls, "busy", False):
            return None
        self.tls.busy = True
        try:
            act = self.hook(dict(kind=kind, path=path, dst=dst, n=n))
        finally:
            self.tls.busy = False
        if not act:
            return None
        if act[0] == "errno":
            raise OSError(act[1], os.strerror(act[1]), path)
        if act[0] == "kill" and kind != "write":
            die()
        if kind == "write":
            return act
        return None

    # -- patched functions --

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            path = self.fds.get(file) if self.hook else None
        else:
            path = self.inside(file)
        if path is None:
            return REAL.ioopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw_mode = "".join(c for c in mode if c in "rwxa+")
        if not isinstance(file, int) and opener is None:
            self.op("open-" + ("w" if any(c in raw_mode for c in "wxa+") else "r"), path)
        raw = io.FileIO(file, raw_mode, closefd, opener)
        if opener is not None:
            path = REAL.readlink(f"/proc/self/fd/{raw.fileno()}")
        self.fds[raw.fileno()] = path
        sim = SimRaw(raw, path, self)
        if "b" in mode and buffering == 0:
            return sim
        size = self.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in raw_mode:
            buf = io.BufferedRandom(sim, size)
        elif any(c in raw_mode for c in "wxa"):
            buf = io.BufferedWriter(sim, size)
        else:
            buf = io.BufferedReader(sim, max(size, 256))
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or self.encoding or "utf-8", errors, newline, buffering == 1)
        text.mode = mode
        return text

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None:
            return REAL.open(path, flags, mode, dir_fd=dir_fd)
        self.op("open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open-r", p)
        fd = REAL.open(path, flags, mode)
        self.fds[fd] = p
        return fd

    def _os_write(self, fd, data):
        p = self.fds.get(fd) if self.hook else None
        if p is None:
            return REAL.write(fd, data)
        data = bytes(data)
        act = self.op("write", p, n=len(data))
        if act:
            k = max(0, min(act[1], len(data)))
            if act[0] == "short":
                return REAL.write(fd, data[: max(1, k)])
            if k:
                REAL.write(fd, data[:k])
            if act[0] == "partial":
                raise OSError(act[2], os.strerror(act[2]))
            die()
        return REAL.write(fd, data)

    def _os_close(self, fd):
        self.fds.pop(fd, None)
        return REAL.close(fd)

    def _sync(self, real):
        def f(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            p = self.fds.get(n)
            if p is not None:
                self.op("fsync", p)
            return real(fd)

        return f

    def _one(self, name, kind):
        real = getattr(REAL, name)

        def f(path, *a, **k):
            p = self.inside(path)
            if p is not None:
                self.op(kind, p)
            return real(path, *a, **k)

        return f

    def _two(self, name, kind):
        real = getattr(REAL, name)

        def f(src, dst, *a, **k):
            p, q = self.inside(src), self.inside(dst)
            if p is not None or q is not None:
                self.op(kind, p or str(src), dst=q or str(dst))
            return real(src, dst, *a, **k)

        return f

    def install(self):
        builtins.open = self._open
        io.open = self._open
        os.open = self._os_open
        os.write = self._os_write
        os.close = self._os_close
        os.fsync = self._sync(REAL.fsync)
        os.fdatasync = self._sync(REAL.fdatasync)
        for name, kind in [("unlink", "unlink"), ("remove", "unlink"), ("mkdir", "mkdir"), ("rmdir", "rmdir"),
                           ("truncate", "truncate"), ("stat", "stat"), ("lstat", "stat"), ("listdir", "stat"),
                           ("access", "stat")]:
            setattr(os, name, self._one(name, kind))
        for name in ("rename", "replace", "link"):
            setattr(os, name, self._two(name, "rename" if name != "link" else "link"))
        shutil._USE_CP_SENDFILE = False

    def uninstall(self):
        builtins.open = REAL.bopen
        io.open = REAL.ioopen
        for name in ("open write close fsync fdatasync unlink remove mkdir rmdir truncate stat lstat listdir access "
                     "rename replace link").split():
            setattr(os, name, getattr(REAL, name))


ENOSPC, EIO, EACCES, EMFILE = errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE


def read_bytes(path):
    """Read a file with the real functions; None if it does not exist."""
    try:
        with REAL.ioopen(path, "rb", opener=lambda p, f: REAL.open(p, f)) as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError):
        return None


def tree(root):
    """{relative path: bytes} of all files below root."""
    out = {}
    for d, _, files in _walk(root):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = read_bytes(p)
    return out


def _walk(root):
    files, dirs = [], []
    for e in sorted(REAL.scandir(root), key=lambda e: e.name):
        (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
    yield root, dirs, files
    for d in dirs:
        yield from _walk(os.path.join(root, d))
