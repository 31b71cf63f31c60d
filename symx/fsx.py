"""Interposes on the file-system and lock calls the code under test makes below one root.

Every call on a path below the root becomes one or two *events* handed to a handler: which
paths it reads (existence or content), which it writes, which lock it takes or drops.  The
handler decides what the call may observe.  Everything else passes through untouched.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import sys

R_OPEN = builtins.open
R = {n: getattr(os, n) for n in (
    "stat", "lstat", "mkdir", "listdir", "scandir", "unlink", "remove", "rmdir", "rename", "replace",
    "open", "close", "utime", "access", "link", "symlink", "fsync", "truncate") if hasattr(os, n)}


class FileProxy:
    """A writable file; closing it is the event at which its content lands."""

    def __init__(self, f, on_close):
        object.__setattr__(self, "_f", f)
        object.__setattr__(self, "_on_close", on_close)
        object.__setattr__(self, "_done", False)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self._done:
            object.__setattr__(self, "_done", True)
            self._on_close(self._f)

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


class _Guard:
    """Calls of the handler itself must not be interposed again."""

    def __init__(self, ip, h):
        self._ip, self._h = ip, h

    def __getattr__(self, n):
        f = getattr(self._h, n)

        def g(*a, **k):
            self._ip.inside += 1
            try:
                return f(*a, **k)
            finally:
                self._ip.inside -= 1
        return g


class Interposer:
    """handler: .read(path, level) .write_begin(path) .write_end(path, closer) .mkdir(path, do)
    .remove(path, do) .rename(a, b, do) .create(path, do) .lock(path) .unlock(path) .listdir(path)"""

    def __init__(self, root, handler):
        self.root = os.path.realpath(root)
        self.h = _Guard(self, handler)
        self.fds = {}
        self.lockfds = {}
        self.inside = 0

    def under(self, p):
        if self.inside:
            return None
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root or p.startswith(self.root + "/"):
            return p
        return None

    # -- installation
    def __enter__(self):
        self.saved = []
        self.active = True

        def sub(mod, name, val):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, val)
        sub(builtins, "open", self.open)
        sub(io, "open", self.open)
        for n in R:
            f = getattr(self, "os_" + n, None)
            if f is not None:
                sub(os, n, f)
        import pathlib
        ip = self
        mkdir0, touch0 = pathlib.Path.mkdir, pathlib.Path.touch

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            p = ip.under(self)
            if p is None or not exist_ok:
                return mkdir0(self, mode, parents, exist_ok)
            if parents:
                todo, q = [], os.path.dirname(p)
                while q == ip.root or q.startswith(ip.root + "/"):
                    todo.append(q)
                    q = os.path.dirname(q)
                for q in reversed(todo):
                    ip.h.ensure(q, True, lambda q=q: R["mkdir"](q))
            return ip.h.ensure(p, True, lambda: R["mkdir"](p))

        def touch(self, mode=0o666, exist_ok=True):
            p = ip.under(self)
            if p is None or not exist_ok:
                return touch0(self, mode, exist_ok)
            return ip.h.ensure(p, False, lambda: touch0(self, mode, True))
        import shutil
        rmtree0 = shutil.rmtree

        def rmtree(path, ignore_errors=False, onerror=None, **k):
            p = ip.under(path)
            if p is None:
                return rmtree0(path, ignore_errors, onerror, **k)
            try:   # the same calls, by path
                for n in os.listdir(p):
                    q = os.path.join(p, n)
                    if os.path.isdir(q):
                        rmtree(q, ignore_errors, onerror)
                    else:
                        os.unlink(q)
                os.rmdir(p)
            except OSError:
                if not ignore_errors:
                    raise
        sub(shutil, "rmtree", rmtree)
        resolve0 = pathlib.Path.resolve

        def resolve(self, strict=False):
            if ip.under(self) is None or strict:
                return resolve0(self, strict)
            with ip._in():   # whether the path exists does not change the answer (no symlinks here)
                return resolve0(self)
        sub(pathlib.Path, "resolve", resolve)
        sub(pathlib.Path, "mkdir", mkdir)
        sub(pathlib.Path, "touch", touch)
        import fcntl
        sub(fcntl, "flock", self.flock)
        import portalocker.portalocker as pp
        sub(pp, "LOCKER", self.flock)
        if "torch" in sys.modules:
            import torch
            self.t_save = torch.save
            sub(torch, "save", self.torch_save)
        return self

    def __exit__(self, *a):
        self.active = False
        for mod, name, val in reversed(self.saved):
            setattr(mod, name, val)

    class _In:
        def __init__(self, o):
            self.o = o

        def __enter__(self):
            self.o.inside += 1

        def __exit__(self, *a):
            self.o.inside -= 1

    def _in(self):
        return Interposer._In(self)

    # -- calls
    def open(self, file, mode="r", *a, **k):
        p = self.under(file) if not isinstance(file, int) else None
        if p is None:
            return R_OPEN(file, mode, *a, **k)
        if "w" in mode or "x" in mode or ("a" in mode) or "+" in mode:
            append = "a" in mode
            self.h.write_begin(p, append, "x" in mode)
            with self._in():
                f = R_OPEN(file, mode, *a, **k)
            self.fds[f.fileno()] = p
            size0 = os.fstat(f.fileno()).st_size
            return FileProxy(f, lambda ff: self._close(p, ff, append, size0))
        self.h.read(p, "content")
        f = R_OPEN(file, mode, *a, **k)
        self.fds[f.fileno()] = p
        return f

    def _close(self, p, f, append, size0=0):
        if not self.active:
            f.close()
            return
        try:
            fd = f.fileno()
        except Exception:
            fd = None
        if fd in self.lockfds:
            self.h.unlock(self.lockfds.pop(fd), fd)

        def fin():
            with self._in():
                f.close()
        if append and self._unchanged(f, size0):
            fin()
        else:
            self.h.write_end(p, fin)
        self.fds.pop(fd, None)

    @staticmethod
    def _unchanged(f, size0):
        try:
            f.flush()
            return os.fstat(f.fileno()).st_size == size0
        except Exception:
            return False

    def torch_save(self, obj, f, *a, **k):
        p = self.under(f) if isinstance(f, (str, os.PathLike)) else None
        if p is None:
            return self.t_save(obj, f, *a, **k)
        buf = io.BytesIO()
        self.t_save(obj, buf, *a, **k)
        with self.open(p, "wb") as fh:
            fh.write(buf.getvalue())

    def os_stat(self, path, *a, **k):
        p = self.under(path) if not isinstance(path, int) and not k.get("dir_fd") else None
        if p is not None:
            self.h.read(p, "kind")
        return R["stat"](path, *a, **k)

    def os_lstat(self, path, *a, **k):
        return R["lstat"](path, *a, **k)

    def os_access(self, path, mode, *a, **k):
        p = self.under(path) if not isinstance(path, int) else None
        if p is not None:
            self.h.read(p, "kind")
        return R["access"](path, mode, *a, **k)

    def os_mkdir(self, path, *a, **k):
        p = self.under(path)
        if p is None:
            return R["mkdir"](path, *a, **k)
        return self.h.create(p, lambda: self._do("mkdir", path, *a, **k))

    def _do(self, n, *a, **k):
        with self._in():
            return R[n](*a, **k)

    def os_listdir(self, path=".", *a):
        p = self.under(path)
        if p is not None:
            self.h.listdir(p)
        return sorted(self._do("listdir", path, *a)) if p else R["listdir"](path, *a)

    def os_scandir(self, path=".", *a):
        p = self.under(path) if not isinstance(path, int) else None
        if p is not None:
            self.h.listdir(p)
        return R["scandir"](path, *a)

    def os_utime(self, path, *a, **k):
        p = self.under(path) if not isinstance(path, int) else None
        if p is not None:
            self.h.read(p, "kind")
        return R["utime"](path, *a, **k)

    def os_open(self, path, flags, *a, **k):
        p = self.under(path) if not k.get("dir_fd") else None
        if p is None:
            return R["open"](path, flags, *a, **k)
        if flags & os.O_CREAT:
            excl = bool(flags & os.O_EXCL)
            if flags & os.O_TRUNC:
                self.h.write_begin(p, False, excl)
                fd = self._do("open", path, flags, *a, **k)
            else:
                fd = self.h.create(p, lambda: self._do("open", path, flags, *a, **k), dirs=False, excl=excl)
            self.fds[fd] = p
            return fd
        self.h.read(p, "content")
        return R["open"](path, flags, *a, **k)

    def os_close(self, fd):
        if fd in self.lockfds:
            self.h.unlock(self.lockfds.pop(fd), fd)
        self.fds.pop(fd, None)
        return R["close"](fd)

    def _rm(self, n, path, *a, **k):
        p = self.under(path) if not k.get("dir_fd") else None
        if p is None:
            return R[n](path, *a, **k)
        return self.h.remove(p, lambda: self._do(n, path, *a, **k))

    def os_unlink(self, path, *a, **k): return self._rm("unlink", path, *a, **k)
    def os_remove(self, path, *a, **k): return self._rm("remove", path, *a, **k)
    def os_rmdir(self, path, *a, **k): return self._rm("rmdir", path, *a, **k)

    def _mv(self, n, a, b, *x, **k):
        p, q = self.under(a), self.under(b)
        if p is None and q is None:
            return R[n](a, b, *x, **k)
        return self.h.rename(p, q, lambda: self._do(n, a, b, *x, **k))

    def os_rename(self, a, b, *x, **k): return self._mv("rename", a, b, *x, **k)
    def os_replace(self, a, b, *x, **k): return self._mv("replace", a, b, *x, **k)

    def flock(self, fd, flags):
        f = fd if isinstance(fd, int) else fd.fileno()
        p = self.fds.get(f)
        if p is None:
            import fcntl
            return self.saved_flock(f, flags)
        import fcntl
        if flags & fcntl.LOCK_UN:
            if f in self.lockfds:
                self.h.unlock(self.lockfds.pop(f), f)
            return None
        if not self.h.lock(p, f, flags):
            raise BlockingIOError(errno.EAGAIN, "lock held")
        self.lockfds[f] = p
        return None

    @property
    def saved_flock(self):
        import fcntl
        for mod, name, val in self.saved:
            if mod is fcntl and name == "flock":
                return val
