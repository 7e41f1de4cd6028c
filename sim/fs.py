"""File-system seam: operations below the simulation root become scheduling and fault points."""
import builtins
import errno
import io
import os
import shutil

from . import kernel as K

_real = {}
ROOT = None  # sandbox root of the running simulation (string ending in /)


def _in(path):
    if K.current() is None or ROOT is None:
        return False
    if isinstance(path, int):
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p.startswith(ROOT) or os.path.abspath(p).startswith(ROOT)


def rel(path):
    p = os.fspath(path)
    return p[len(ROOT):] if p.startswith(ROOT) else p


class SimRaw(io.FileIO):
    """Unbuffered file whose writes are fault, crash and scheduling points."""

    def __init__(self, path, mode):
        super().__init__(path, mode)
        self._p = rel(path)
        self._proc = K.current().proc

    def write(self, b):
        t = K.current()
        if t is None or not self._proc.alive:
            return len(b) if not isinstance(b, memoryview) else b.nbytes
        data = bytes(b)
        t.k.yield_("fs.write")
        r = K.at_op("fs.write", self._p)
        if r is not None:
            if r[0] == "short":
                n = max(0, min(len(data), r[1]))
                if n:
                    super().write(data[:n])
                raise OSError(errno.ENOSPC, "No space left on device", self._p)
            if r[0] == "torn":  # a prefix reaches the disk, then the process dies
                n = len(data) * r[1] // 8
                if n:
                    super().write(data[:n])
                t.k.kill(t.proc)
                raise OSError(errno.EIO, "dead")
            if r[0] == "err":
                raise OSError(r[1], os.strerror(r[1]), self._p)
        return super().write(data)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        t = K.current()
        if t is not None and not self.closed and self._proc.alive:
            t.k.yield_("fs.close")
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _in(file) or opener is not None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    k = K.KERNEL
    k.yield_("fs.open")
    writing = any(c in mode for c in "wax+")
    r = K.at_op("fs.open" + (".w" if writing else ".r"), rel(file))
    if r is not None and r[0] in ("err", "short"):
        e = r[1] if r[0] == "err" else errno.ENOSPC
        raise OSError(e, os.strerror(e), os.fspath(file))
    if not writing:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd)
    raw = SimRaw(os.fspath(file), mode.replace("t", "").replace("b", ""))
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw, 8192) if "+" in mode else io.BufferedWriter(raw, 8192)
    if "b" in mode:
        return buf
    txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    return txt


def _wrap(name, kind, npaths=1):
    real = getattr(os, name)
    _real[name] = real

    def f(*a, **kw):
        if a and _in(a[0]):
            K.KERNEL.yield_("fs." + kind)
            r = K.at_op("fs." + kind, rel(a[0]))
            if r is not None:
                e = r[1] if r[0] == "err" else errno.ENOSPC
                raise OSError(e, os.strerror(e), os.fspath(a[0]))
        return real(*a, **kw)

    f.__name__ = name
    setattr(os, name, f)


class _ScanIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _order(names, key):
    k = K.KERNEL
    names = sorted(names, key=key)
    if k.cfg.get("shuffle_dirs", True) and len(names) > 1:
        names = k.choices.shuffle("d", names)
        k.count("fault:dir-order")
    return names


def sim_listdir(path="."):
    r = _real["listdir"](path)
    if not _in(path):
        return r
    K.KERNEL.yield_("fs.listdir")
    return _order(r, lambda x: x)


def sim_scandir(path="."):
    if not _in(path):
        return _real["scandir"](path)
    K.KERNEL.yield_("fs.scandir")
    with _real["scandir"](path) as it:
        ents = list(it)
    return _ScanIter(_order(ents, lambda e: e.name))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _real["open"] = builtins.open
    _real["listdir"] = os.listdir
    _real["scandir"] = os.scandir
    builtins.open = sim_open
    io.open = sim_open
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    for n, kd in (("mkdir", "mkdir"), ("rename", "rename"), ("replace", "rename"), ("unlink", "unlink"),
                  ("remove", "unlink"), ("rmdir", "rmdir"), ("symlink", "link"), ("link", "link"), ("truncate", "trunc")):
        _wrap(n, kd)
    shutil._use_fd_functions = False
    try:
        shutil.rmtree.avoids_symlink_attacks = False
    except AttributeError:
        pass
