"""Storage seam: files under one scratch directory go through a raw layer that
the simulator controls.  Everything else is opened normally.

Faults (per attempt, counted over all files of the disk):
  open   {n: errno}          the n-th open fails
  write  {n: kind}           n-th raw write: "eio", "short", "eintr"
  read   {n: kind}           n-th raw read: "eio", "short", "eintr"
  close  {n: errno}          the n-th close of a file opened for writing reports
                             an error (the data written so far stays)
  space  bytes               the disk is full after that many bytes (the last
                             write is short, the next one fails)
  crash  n                   the process dies at the n-th raw operation
Buffer sizes are part of the plan, so a fault can hit any byte offset."""
import atexit
import builtins
import collections
import errno
import io
import os
import shutil
import sys
import tempfile

from .core import SimCrash, SimInterrupt

_real_open = builtins.open
_state = {"disk": None, "root": None}


def root():
    """The scratch directory of this process."""
    if _state["root"] is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            d = tempfile.mkdtemp(prefix="verif-fs-", dir=base)
        except OSError:
            d = tempfile.mkdtemp(prefix="verif-fs-")
        _state["root"] = d
        atexit.register(shutil.rmtree, d, True)
    return _state["root"]


def clear():
    r = root()
    for n in os.listdir(r):
        p = os.path.join(r, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, True)
        else:
            os.unlink(p)


class Disk(object):
    def __init__(self, plan=None, ctx=None):
        plan = plan or {}
        self.plan = dict((k, dict((int(a), b) for a, b in v) if isinstance(v, list) else v) for k, v in plan.items())
        self.ctx = ctx
        self.n = collections.Counter()
        self.used = 0
        self.hard = []          # errors reported to the library
        self.soft = []          # short transfers and retries
        self.dead = False
        self.files = []
        self.buf = self.plan.get("buf", 8192)
        self.chunk = self.plan.get("chunk", 8192)
        self.encoding = self.plan.get("encoding", "utf-8")

    def note(self, kind, hard):
        (self.hard if hard else self.soft).append(kind)
        if self.ctx is not None:
            self.ctx.fault(kind)

    def op(self, kind):
        self.n[kind] += 1
        self.n["op"] += 1
        if self.plan.get("crash") == self.n["op"]:
            self.dead = True
            self.note("crash", True)
            raise SimCrash("simulated crash")
        return self.n[kind]


class SimFile(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        self._closed_once = False
        self._w = any(c in mode for c in "wax+")
        io.FileIO.__init__(self, path, mode)

    def write(self, b):
        d = self._disk
        if d.dead:
            return len(b)
        n = d.op("write")
        k = d.plan.get("write", {}).get(n)
        b = bytes(b)
        if k == "eio":
            d.note("write_eio", True)
            raise OSError(errno.EIO, "injected I/O error")
        if k == "eintr":
            d.note("write_eintr", False)
            raise InterruptedError(errno.EINTR, "injected")
        if k == "short" and len(b) > 1:
            d.note("short_write", False)
            b = b[:1 + (n * 7) % (len(b) - 1)]
        space = d.plan.get("space")
        if space is not None and d.used + len(b) > space:
            if d.used >= space:
                d.note("disk_full", True)
                raise OSError(errno.ENOSPC, "injected: no space left")
            b = b[:space - d.used]
            d.note("short_write", False)
        d.used += len(b)
        return io.FileIO.write(self, b)

    def readinto(self, buf):
        d = self._disk
        n = d.op("read")
        k = d.plan.get("read", {}).get(n)
        if k == "eio":
            d.note("read_eio", True)
            raise OSError(errno.EIO, "injected I/O error")
        if k == "eintr":
            d.note("read_eintr", False)
            raise InterruptedError(errno.EINTR, "injected")
        m = memoryview(buf)
        if (k == "short" or d.plan.get("trickle")) and len(m) > 1:
            d.note("short_read", False)
            m = m[:1 + (n * 7) % min(len(m) - 1, d.plan.get("trickle") or 16)]
        return io.FileIO.readinto(self, m)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = []
        while True:
            b = self.read(4096)
            if not b:
                return b"".join(out)
            out.append(b)

    def close(self):
        d = self._disk
        first = not self._closed_once
        self._closed_once = True
        io.FileIO.close(self)
        if first and self._w and not d.dead:
            n = d.op("close")
            e = d.plan.get("close", {}).get(n)
            if e:
                d.note("close_error", True)
                raise OSError(e, "injected close error")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _state["disk"]
    if d is None or not isinstance(file, (str, bytes, os.PathLike)):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.abspath(os.fsdecode(os.fspath(file)))
    if not path.startswith(root() + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    n = d.op("open")
    e = d.plan.get("open", {}).get(n)
    if e:
        d.note("open_error", True)
        raise OSError(e, "injected open error", path)
    binary = "b" in mode
    raw = SimFile(d, path, mode.replace("b", "").replace("t", ""))
    d.files.append(raw)
    if buffering == 0:
        return raw
    if "+" in mode:
        b = io.BufferedRandom(raw, d.buf)
    elif raw._w:
        b = io.BufferedWriter(raw, d.buf)
    else:
        b = io.BufferedReader(raw, d.buf)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding or d.encoding, errors, newline, line_buffering=buffering == 1)
    try:
        t._CHUNK_SIZE = d.chunk
    except Exception:
        pass
    t.mode = mode
    return t


class mounted(object):
    """with mounted(disk): library opens go through the disk."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        self.old = (_state["disk"], builtins.open, io.open)
        _state["disk"] = self.disk
        builtins.open = io.open = sim_open
        self.hook = sys.unraisablehook
        sys.unraisablehook = lambda a: None
        return self.disk

    def __exit__(self, *a):
        _state["disk"], builtins.open, io.open = self.old
        sys.unraisablehook = self.hook


def content(path):
    """What is really in the file."""
    with _real_open(path, "rb") as f:
        return f.read()


def put(path, data):
    with _real_open(path, "wb") as f:
        f.write(data)


def gen_write_plan(rng, size=400):
    """A fault plan for writers; size: expected number of output bytes."""
    p = {"buf": rng.choice([1, 5, 16, 64, 512, 8192]), "chunk": rng.choice([1, 16, 128, 8192])}
    ops = 2 + size // max(p["buf"], 8)
    for kind in rng.sample(["open", "eio", "short", "space", "close", "crash", "eintr", "short", "space", "eio"], rng.randint(1, 2)):
        at = rng.choice([1, 2, 3, rng.randint(1, max(2, ops))])
        if kind == "open":
            p["open"] = [[rng.choice([1, 1, 2, 3]), rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENOENT])]]
        elif kind in ("eio", "eintr"):
            p["write"] = p.get("write", []) + [[at, kind]]
        elif kind == "short":
            p["write"] = p.get("write", []) + [[i, "short"] for i in range(1, rng.randint(2, 40))]
        elif kind == "space":
            p["space"] = rng.choice([0, 1, rng.randint(0, size), rng.randint(0, size), size - rng.randint(0, 30)])
        elif kind == "close":
            p["close"] = [[rng.choice([1, 1, 2, 3]), rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])]]
        else:
            p["crash"] = rng.choice([1, 2, 3, rng.randint(1, ops + 4)])
    return p


def gen_read_plan(rng, size=200):
    p = {"buf": rng.choice([1, 5, 16, 64, 512, 8192]), "chunk": rng.choice([1, 3, 16, 128, 8192])}
    ops = 2 + size // max(p["buf"], 8)
    for kind in rng.sample(["trickle", "short", "eio", "open", "eintr", "trickle"], rng.randint(1, 2)):
        if kind == "trickle":
            p["trickle"] = rng.choice([1, 2, 16])
        elif kind == "open":
            p["open"] = [[rng.choice([1, 1, 2]), rng.choice([errno.EACCES, errno.EMFILE, errno.ENOENT])]]
        elif kind == "short":
            p["read"] = p.get("read", []) + [[i, "short"] for i in range(1, rng.randint(2, 40))]
        else:
            p["read"] = p.get("read", []) + [[rng.choice([1, 2, 3, rng.randint(1, ops + 1)]), kind]]
    return p
