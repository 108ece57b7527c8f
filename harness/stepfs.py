"""A virtual file system for fsspec whose every primitive step can be observed, delayed or failed.

Two flavours, selected by the disk: "local" behaves like a POSIX file system (a file is truncated
when opened for writing, grows with each write, mv_file renames atomically, parent directories must
exist); "object" behaves like an object store (a file appears when it is closed, copying is atomic,
directories are implied).  Nothing here touches the real file system.
"""
from __future__ import annotations

import errno
import io
import posixpath
import threading

import fsspec
from fsspec.spec import AbstractFileSystem


class Crash(BaseException):
    """The process stopped; nothing after this point reaches the disk."""


class Disk:
    def __init__(self, flavour="local", chunk=16):
        self.flavour, self.chunk = flavour, chunk
        self.files: dict[str, bytes] = {}
        self.dirs: set[str] = set()
        self.log: list[tuple[str, str]] = []
        self.n = 0
        self.fail_at = None          # step number at which to fail
        self.fail_mode = None        # "error" | "errors" (this and all later steps) | "crash"
        self.dead = False
        self.gate = None             # callable(op, path) called before each step
        self.lock = threading.RLock()

    def step(self, op, path):
        if self.gate:
            self.gate(op, path)
        with self.lock:
            if self.dead:
                raise Crash()
            self.n += 1
            self.log.append((op, path))
            if self.fail_at is not None and (self.n == self.fail_at or (self.fail_mode == "errors" and self.n > self.fail_at)):
                if self.fail_mode == "crash":
                    self.dead = True
                    raise Crash()
                raise OSError(errno.ENOSPC, "injected", path)

    def heal(self):
        self.fail_at = self.fail_mode = None
        self.dead = False
        self.n = 0
        self.log = []

    def isdir(self, p):
        return p == "" or p in self.dirs or any(f.startswith(p + "/") for f in list(self.files) + list(self.dirs))


DISKS: dict[str, Disk] = {}


class Writer(io.RawIOBase):
    def __init__(self, disk, path, append, autocommit):
        super().__init__()
        self.disk, self.path, self.autocommit = disk, path, autocommit
        self.target = path
        old = disk.files.get(path, b"") if append else b""
        if not autocommit:
            self.target = path + ".uncommitted"
        self.buf = bytearray(old)
        self.done = False
        if disk.flavour == "local":
            disk.step("create", self.target)
            disk.files[self.target] = bytes(old)

    def writable(self):
        return True

    def tell(self):
        return len(self.buf)

    def write(self, b):
        b = bytes(b)
        if self.disk.flavour == "local":
            for i in range(0, len(b), self.disk.chunk):
                self.disk.step("write", self.target)
                self.disk.files[self.target] = self.disk.files.get(self.target, b"") + b[i:i + self.disk.chunk]
        self.buf += b
        return len(b)

    def close(self):
        if not self.closed:
            try:
                if self.disk.flavour == "object" and self.autocommit and not self.done:
                    self.done = True
                    self.disk.step("put", self.path)
                    self.disk.files[self.path] = bytes(self.buf)
            finally:
                super().close()

    def commit(self):
        self.disk.step("commit", self.path)
        self.disk.files[self.path] = bytes(self.buf)
        self.disk.files.pop(self.target, None) if self.target != self.path else None

    def discard(self):
        if self.target != self.path:
            self.disk.files.pop(self.target, None)


class StepFS(AbstractFileSystem):
    protocol = "stepfs"
    cachable = False
    root_marker = ""

    def _disk(self, path):
        path = posixpath.normpath(self._strip_protocol(path)).lstrip("/")
        return DISKS[path.split("/")[0]], ("" if path == "." else path)

    def __init__(self, **kw):
        super().__init__(**kw)
        if not hasattr(self, "mv_file"):
            pass

    def _open(self, path, mode="rb", block_size=None, autocommit=True, cache_options=None, **kw):
        d, p = self._disk(path)
        if "r" in mode and "+" not in mode:
            d.step("read", p)
            if p not in d.files:
                raise (IsADirectoryError if d.isdir(p) else FileNotFoundError)(p)
            return io.BytesIO(d.files[p])
        if d.flavour == "local" and not d.isdir(posixpath.dirname(p)):
            d.step("create", p)
            raise FileNotFoundError(p)
        if p in d.dirs:
            raise IsADirectoryError(p)
        if "x" in mode and p in d.files:
            raise FileExistsError(p)
        return Writer(d, p, "a" in mode or "+" in mode, autocommit)

    def ls(self, path, detail=True, **kw):
        d, p = self._disk(path)
        d.step("ls", p)
        if p in d.files:
            out = [p]
        elif not d.isdir(p):
            raise FileNotFoundError(p)
        else:
            pre = p + "/" if p else ""
            out = sorted({pre + x[len(pre):].split("/")[0] for x in list(d.files) + list(d.dirs) if x.startswith(pre) and x != p})
        if d.flavour == "object":
            out = [x for x in out]
        return [self._info(d, x) for x in out] if detail else out

    def _info(self, d, p):
        if p in d.files:
            return {"name": p, "size": len(d.files[p]), "type": "file"}
        return {"name": p, "size": 0, "type": "directory"}

    def info(self, path, **kw):
        d, p = self._disk(path)
        d.step("stat", p)
        if p in d.files or d.isdir(p):
            return self._info(d, p)
        raise FileNotFoundError(p)

    def mkdir(self, path, create_parents=True, **kw):
        d, p = self._disk(path)
        d.step("mkdir", p)
        if d.isdir(p):
            raise FileExistsError(p)
        self._mk(d, p)

    def makedirs(self, path, exist_ok=False):
        d, p = self._disk(path)
        d.step("mkdir", p)
        if d.isdir(p) and not exist_ok or p in d.files:
            raise FileExistsError(p)
        self._mk(d, p)

    def _mk(self, d, p):
        while p:
            d.dirs.add(p)
            p = posixpath.dirname(p)

    def rmdir(self, path):
        d, p = self._disk(path)
        d.step("rmdir", p)
        d.dirs.discard(p)

    def _rm(self, path):
        d, p = self._disk(path)
        d.step("unlink", p)
        if p in d.files:
            del d.files[p]
        elif p in d.dirs:
            d.dirs.discard(p)
        else:
            raise FileNotFoundError(p)

    rm_file = _rm

    def cp_file(self, path1, path2, **kw):
        d, p1 = self._disk(path1)
        _, p2 = self._disk(path2)
        d.step("read", p1)
        if p1 not in d.files:
            raise FileNotFoundError(p1)
        data = d.files[p1]
        if d.flavour == "object":
            d.step("copy", p2)
            d.files[p2] = data
            return
        d.step("create", p2)
        d.files[p2] = b""
        for i in range(0, len(data), d.chunk):
            d.step("write", p2)
            d.files[p2] += data[i:i + d.chunk]

    def _rename(self, path1, path2):
        d, p1 = self._disk(path1)
        _, p2 = self._disk(path2)
        d.step("rename", p1)
        d.log.append(("rename", p2))
        if p1 not in d.files:
            raise FileNotFoundError(p1)
        d.files[p2] = d.files.pop(p1)

    def __getattribute__(self, name):
        # only the local flavour has an atomic rename
        if name == "mv_file" and any(x.flavour == "local" for x in DISKS.values()):
            return lambda a, b, **kw: self._rename(a, b)
        return super().__getattribute__(name)

    def created(self, path):
        raise NotImplementedError

    modified = created


def install():
    fsspec.register_implementation("stepfs", StepFS, clobber=True)
