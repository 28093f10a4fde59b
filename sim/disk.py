"""A scratch directory behind the library's file operations, with injected faults.  Only paths below the scratch directory are
ever touched; the real calls happen there, so what is on disk afterwards is what a real disk would hold."""
from __future__ import annotations
import builtins, contextlib, errno, io, os, shutil

KINDS = ["mkdir", "race", "open", "write", "short", "close", "vanish", "rename"]


class File:
    """An open file whose device fills up after `limit` bytes, or whose close fails after losing what was written last."""

    def __init__(self, real, disk, fault):
        self._real, self._disk, self._fault, self._n = real, disk, fault, 0

    def write(self, b):
        if isinstance(self._real, io.RawIOBase):        # an unbuffered file may accept less than it is given
            return self._disk.raw_write(self._real.write, b)
        k = len(b)
        if self._fault and self._fault[0] == "write":
            left = self._disk.limit - self._disk.written
            if k > left:
                self._real.write(b[:max(left, 0)])
                self._disk.written += max(left, 0)
                self._disk.fired += 1
                raise OSError(errno.ENOSPC, "No space left on device")
        r = self._real.write(b)
        self._disk.written += k
        return r

    def writelines(self, xs):
        for x in xs: self.write(x)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if self._real.closed:
            return
        name = self._real.name
        if isinstance(name, int):
            name = self._disk.fds.pop(name, name)
        if self._fault and self._fault[0] == "close" and self._real.writable():
            n = self._real.tell()
            self._real.close()
            with self._disk.real_open(name, "r+b") as f:
                f.truncate(n // 2)
            self._disk.fired += 1
            raise OSError(errno.EIO, "Input/output error")
        self._real.close()

    def __getattr__(self, k):
        return getattr(self._real, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._real)


class Disk:
    def __init__(self, root, fault=None, limit=1 << 60):
        self.root, self.fault, self.limit = os.path.realpath(root), fault, limit
        self.fired, self.written, self.opens, self.mkdirs = 0, 0, 0, 0
        self.real_open, self.fds = builtins.open, {}

    def ours(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        p = os.path.realpath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def raw_write(self, real, b):
        """One write call on a descriptor: it may take only part of the data, as on a full disk or when a signal arrives."""
        b = memoryview(b).cast("B"); k = len(b)
        if self.fault and self.fault[0] == "write" and k > self.limit - self.written:
            self.fired += 1
            k = self.limit - self.written
            if k <= 0:
                raise OSError(errno.ENOSPC, "No space left on device")
        elif self.fault and self.fault[0] == "short" and not self.fired and k > 1:
            self.fired += 1
            k = max(1, int(self.fault[1] * k))
        n = real(b[:k])
        self.written += n
        return n

    def _os_open(self, path, flags, *a, **kw):
        if kw.get("dir_fd") is not None or not self.ours(path) or not flags & (os.O_WRONLY | os.O_RDWR):
            return self.real_os[0](path, flags, *a, **kw)
        self._opening(path)
        fd = self.real_os[0](path, flags, *a, **kw)
        self.fds[fd] = path
        return fd

    def _os_write(self, fd, b):
        return self.raw_write(lambda x: self.real_os[1](fd, x), b) if fd in self.fds else self.real_os[1](fd, b)

    def _os_close(self, fd):
        if self.fds.pop(fd, None) is not None and self.fault and self.fault[0] == "close":
            os.ftruncate(fd, os.fstat(fd).st_size // 2)
            self.real_os[2](fd)
            self.fired += 1
            raise OSError(errno.EIO, "Input/output error")
        return self.real_os[2](fd)

    def _open(self, file, mode="r", *a, **kw):
        if isinstance(file, int) and file in self.fds:
            return File(self.real_open(file, mode, *a, **kw), self, self.fault)
        if isinstance(file, int) or not self.ours(file) or not any(c in mode for c in "wax+"):
            return self.real_open(file, mode, *a, **kw)
        self._opening(file)
        return File(self.real_open(file, mode, *a, **kw), self, self.fault)

    def _opening(self, file):
        self.opens += 1
        if self.fault and self.fault[0] == "open":
            self.fired += 1
            e = {"acces": errno.EACCES, "nospc": errno.ENOSPC, "mfile": errno.EMFILE}[self.fault[2]]
            raise OSError(e, os.strerror(e), str(file))
        if self.fault and self.fault[0] == "vanish" and not self.fired:
            d = os.path.realpath(os.path.dirname(os.path.abspath(file)))
            if d.startswith(self.root + os.sep):
                self.fired += 1
                shutil.rmtree(d, ignore_errors=True)

    def _mkdir(self, path, *a, **kw):
        if not self.ours(path):
            raise PermissionError(errno.EACCES, "outside the scratch directory", str(path))
        self.mkdirs += 1
        if self.fault and self.fault[0] == "mkdir":
            self.fired += 1
            e = {"acces": errno.EACCES, "nospc": errno.ENOSPC, "mfile": errno.EROFS}[self.fault[2]]
            raise OSError(e, os.strerror(e), str(path))
        if self.fault and self.fault[0] == "race":
            self.fired += 1
            try:
                self.real_mkdir(path)           # another process was faster
            except FileExistsError:
                pass
        return self.real_mkdir(path, *a, **kw)

    def _moved(self, real):
        def move(src, dst, *a, **kw):
            if not (self.ours(src) and self.ours(dst)):
                raise PermissionError(errno.EACCES, "outside the scratch directory", str(dst))
            if self.fault and self.fault[0] == "rename":
                self.fired += 1
                raise OSError(errno.EIO, "Input/output error", str(dst))
            return real(src, dst, *a, **kw)
        return move

    @contextlib.contextmanager
    def mounted(self):
        self.real_mkdir, ren, rep = os.mkdir, os.rename, os.replace
        self.real_os = os.open, os.write, os.close
        try:
            builtins.open = io.open = self._open
            os.mkdir, os.rename, os.replace = self._mkdir, self._moved(ren), self._moved(rep)
            os.open, os.write, os.close = self._os_open, self._os_write, self._os_close
            yield self
        finally:
            builtins.open = io.open = self.real_open
            os.mkdir, os.rename, os.replace = self.real_mkdir, ren, rep
            os.open, os.write, os.close = self.real_os
