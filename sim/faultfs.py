"""Simulated file system layer: every open() below chosen roots goes through a fault-injecting raw file.

Real bytes live on the real (scratch or package data) files; faults are decided by the scenario only.
Fault dict: {"open": n (1-based ordinal of the matching open), "kind": ..., "at": byte offset}
 read kinds : enoent eacces emfile eio_open | eio_read enomem_read eintr_read (at byte) | short (1..k byte reads) | trunc (EOF at byte)
 write kinds: enospc_open eacces emfile eio_open | enospc eio_write (at byte, the bytes before it are written) | short_write (benign)
              | eio_close (data up to `at` durable, close fails) | crash (process dies at byte: only bytes before it are durable)
"""
import builtins, errno, io, os

_OPEN_ERR = {"enoent": (errno.ENOENT, FileNotFoundError), "eacces": (errno.EACCES, PermissionError),
             "emfile": (errno.EMFILE, OSError), "eio_open": (errno.EIO, OSError), "enospc_open": (errno.ENOSPC, OSError)}
READ_OPEN = ["enoent", "eacces", "emfile", "eio_open"]
READ_DATA = ["eio_read", "enomem_read", "eintr_read"]
WRITE_OPEN = ["enospc_open", "eacces", "emfile", "eio_open"]
WRITE_DATA = ["enospc", "eio_write", "eio_close", "crash"]


class Crash(BaseException):
    """The simulated process died here."""


class Raw(io.RawIOBase):
    def __init__(self, fs, path, mode, fault):
        self.fs, self.fault, self.path = fs, fault, path
        self._f = io.FileIO(path, mode)
        self._mode = mode
        self.pos = 0
        self.interrupted = False

    def readable(self): return "r" in self._mode or "+" in self._mode
    def writable(self): return any(c in self._mode for c in "wax+")
    def seekable(self): return self.fault is None or self.fault["kind"] not in ("trunc", "short", "eio_read", "enomem_read", "eintr_read")
    def fileno(self):
        if self.fault is not None:
            raise io.UnsupportedOperation("fileno")
        return self._f.fileno()
    def isatty(self): return False

    def seek(self, o, w=0):
        self.pos = self._f.seek(o, w)
        return self.pos

    def tell(self): return self.pos

    def truncate(self, n=None): return self._f.truncate(n)

    def readinto(self, b):
        f = self.fault
        n = len(b)
        if f is not None:
            k, at = f["kind"], f.get("at", 0)
            if k == "eintr_read" and self.interrupted:
                k = "none"              # a signal interrupts once; the retried read works
            if k in READ_DATA and self.pos >= at:
                self.fs.hit(f)
                self.interrupted = True
                if k == "enomem_read":
                    raise MemoryError("simulated")
                if k == "eintr_read":
                    raise InterruptedError(errno.EINTR, "simulated interrupted read", self.path)
                raise OSError(errno.EIO, "simulated read error", self.path)
            if k in READ_DATA:
                n = min(n, max(1, at - self.pos))
            elif k == "short":
                self.fs.hit(f)
                n = min(n, 1 + (self.pos * 7919 + at) % max(1, at))
            elif k == "trunc":
                self.fs.hit(f)
                n = min(n, max(0, at - self.pos))
                if n == 0:
                    return 0
        mv = memoryview(b)[:n]
        got = self._f.readinto(mv)
        self.pos += got or 0
        return got

    def write(self, b):
        if self.fs.dead:
            return len(b)               # nothing a dead process does is durable
        f = self.fault
        b = bytes(b)
        if f is not None:
            k, at = f["kind"], f.get("at", 0)
            if k in ("enospc", "eio_write", "crash"):
                if self.pos + len(b) > at:
                    keep = b[:max(0, at - self.pos)]
                    if keep:
                        self._f.write(keep)
                        self.pos += len(keep)
                        if k != "crash":
                            return len(keep)        # short write first, as the kernel does
                    self.fs.hit(f)
                    if k == "crash":
                        self.fs.dead = True
                        raise Crash(self.path)
                    raise OSError(errno.ENOSPC if k == "enospc" else errno.EIO, "simulated write error", self.path)
            elif k == "short_write":
                self.fs.hit(f)
                b = b[:1 + (self.pos * 31 + at) % max(1, at)]
        n = self._f.write(b)
        self.pos += n
        return n

    def close(self):
        if self.closed:
            return
        f = self.fault
        try:
            super().close()
        finally:
            lost = False
            if f is not None and f["kind"] == "eio_close" and self.writable() and not self.fs.dead:
                lost = True
                end = self._f.seek(0, 2)
                if end > f.get("at", 0):
                    self._f.truncate(f.get("at", 0))      # write-back failed: later bytes never reached the disk
            self._f.close()
        if lost:
            self.fs.hit(f)
            raise OSError(errno.EIO, "simulated write-back error on close", self.path)


class FaultFS:
    def __init__(self, roots, faults=(), ctx=None, readers=True, writers=True):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.faults = list(faults)
        self.ctx = ctx
        self.opens = 0
        self.raws = []
        self.hits = []
        self.dead = False
        self.readers, self.writers = readers, writers
        self.log = []

    def hit(self, f):
        if f is not None and id(f) not in [id(x) for x in self.hits]:
            self.hits.append(f)
            if self.ctx is not None:
                self.ctx.fault("io_" + f["kind"])

    def _mine(self, file):
        if isinstance(file, int):
            return None
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if any(p.startswith(r) for r in self.roots) else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self._mine(file)
        wr = any(c in mode for c in "wax+")
        if p is None or opener is not None or (wr and not self.writers) or (not wr and not self.readers):
            return self._real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        fault = next((f for f in self.faults if f["open"] == self.opens), None)
        self.log.append((os.path.basename(p), mode, fault["kind"] if fault else None))
        if fault is not None and fault["kind"] in _OPEN_ERR:
            self.hit(fault)
            no, cls = _OPEN_ERR[fault["kind"]]
            raise cls(no, "simulated " + os.strerror(no), str(file))
        if self.dead:
            raise Crash(p)
        binary = "b" in mode
        raw = Raw(self, p, mode.replace("b", "").replace("t", ""), fault)
        self.raws.append(raw)
        if buffering == 0:
            return raw
        small = fault is not None and fault["kind"] != "short"
        size = buffering if buffering > 1 else (256 if small and not wr else 8192)
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif wr:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t

    def still_open(self):
        return [r.path for r in self.raws if not r.closed]

    def __enter__(self):
        self._real = io.open
        self._saved = (builtins.open, io.open)
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._saved
