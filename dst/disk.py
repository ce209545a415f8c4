"""A simulated disk: files under /simdisk live here, and fail, tear and lose what the trace says."""

from __future__ import annotations

import builtins
import errno
import io
import os

ROOT = "/simdisk/"
SECTOR = 512
_real_open = io.open


class SimCrash(BaseException):
    """The process died; only what reached the disk remains."""


class InjectedInterrupt(KeyboardInterrupt):
    """A user interrupt in the middle of a system call."""


class Disk:
    def __init__(self, cov) -> None:
        self.files: dict[str, bytes] = {}
        self.cov = cov
        self.plan: dict | None = None

    # A fault plan applies to the next file opened: {"k": kind, "at": byte offset}
    def arm(self, plan) -> None:
        self.plan = plan

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **kw):
        path = os.fspath(file) if isinstance(file, (str, bytes, os.PathLike)) else None
        if not isinstance(path, str) or not path.startswith(ROOT):
            return _real_open(file, mode, buffering, encoding, errors, newline, *a, **kw)
        plan, self.plan = self.plan, None
        writing = any(c in mode for c in "wax+")
        if not writing and path not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if plan and plan["k"] == "open-fails":
            self.cov.fault("open-fails")
            raise OSError(errno.EMFILE if writing else errno.EIO, "injected", path)
        if "w" in mode or path not in self.files:
            self.files[path] = b""
        raw = SimFile(self, path, writing, plan, append="a" in mode)
        if "b" in mode:
            return io.BufferedRandom(raw) if "+" in mode else (
                io.BufferedWriter(raw) if writing else io.BufferedReader(raw))
        buf = io.BufferedRandom(raw) if "+" in mode else (
            io.BufferedWriter(raw) if writing else io.BufferedReader(raw))
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def __enter__(self):
        io.open = builtins.open = self.open
        return self

    def __exit__(self, *exc):
        io.open = builtins.open = _real_open

    def damage(self, path, d) -> None:
        """What a power failure leaves of a file that was written but not yet on the disk."""
        data = self.files.get(path)
        if not data:
            return
        if d["k"] == "cut":
            self.files[path] = data[: d["at"] % len(data)]
        elif d["k"] == "zero":
            n = -(-len(data) // SECTOR)
            s = d["at"] % n
            e = min(n, s + d.get("len", 1))
            lo, hi = s * SECTOR, min(len(data), e * SECTOR)
            self.files[path] = data[:lo] + b"\0" * (hi - lo) + data[hi:]
        elif d["k"] == "zero-tail":
            lo = d["at"] % len(data) // SECTOR * SECTOR
            self.files[path] = data[:lo] + b"\0" * (len(data) - lo)
        self.cov.fault(f"lost-{d['k']}")


class SimFile(io.RawIOBase):
    def __init__(self, disk, path, writing, plan, append):
        self.disk, self.path, self.w, self.plan = disk, path, writing, plan
        self.pos = len(disk.files[path]) if append else 0
        self.dead = False

    def readable(self):
        return True

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.disk.files[self.path])}[whence]
        self.pos = base + off
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        data = self.disk.files[self.path]
        self.disk.files[self.path] = data[:size].ljust(size, b"\0")
        return size

    def readinto(self, b):
        data = self.disk.files[self.path]
        n = min(len(b), max(0, len(data) - self.pos))
        p = self.plan
        if p and p["k"] == "read-error" and self.pos + n >= p["at"] % max(1, len(data)):
            self.plan = None
            self.disk.cov.fault("read-error")
            raise OSError(errno.EIO, "injected", self.path)
        if p and p["k"] == "short-read" and n > 1:
            n = max(1, n * (p["at"] % 7 + 1) // 9)
            self.disk.cov.fault("short-read")
        b[:n] = data[self.pos : self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        b = bytes(b)
        if self.dead:
            return len(b)
        n = len(b)
        p = self.plan
        stop = None
        if p and p["k"] == "short-write" and n > 1:
            n = max(1, n * (p["at"] % 7 + 1) // 9)
            self.disk.cov.fault("short-write")
        elif p and p["k"] in ("disk-full", "crash", "interrupt", "write-error"):
            left = p["at"] - self.pos
            if n >= left:
                n, stop = max(0, left), p["k"]
        data = self.disk.files[self.path]
        self.disk.files[self.path] = data[: self.pos].ljust(self.pos, b"\0") + b[:n] + data[self.pos + n :]
        self.pos += n
        if stop:
            self.disk.cov.fault(stop)
            if stop == "disk-full" and n:
                # A full disk takes what fits, and refuses the rest.
                self.plan = {"k": "disk-full", "at": self.pos}
                return n
            if stop == "crash":
                self.dead = True
                raise SimCrash
            if stop == "interrupt":
                self.plan = None
                self.dead = True
                raise InjectedInterrupt
            raise OSError(errno.ENOSPC if stop == "disk-full" else errno.EIO, "injected", self.path)
        return n
