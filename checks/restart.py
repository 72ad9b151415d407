"""A second process with another hash seed, for checks in which work goes on
after a restart.  One server per hash seed is started on first use; it forks a
fresh process image for every request, so nothing leaks between requests.

    call(hashseed, "checks.c14", "serve", payload) -> result"""
import atexit
import os
import pickle
import struct
import subprocess
import sys

_servers = {}


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError("restart server ended")
    n = struct.unpack("<q", h)[0]
    return pickle.loads(f.read(n))


def _stop():
    for p in _servers.values():
        try:
            p.stdin.close()
            p.wait(5)
        except Exception:
            p.kill()


def call(hashseed, module, func, payload):
    from sim import core, runner
    p = _servers.get(hashseed)
    if p is None:
        if not _servers:
            atexit.register(_stop)
        p = _servers[hashseed] = subprocess.Popen([sys.executable, "-m", "checks.restart"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                  env=runner.env_for(hashseed), cwd=core.VERIF)
    _send(p.stdin, (module, func, payload))
    kind, value = _recv(p.stdout)
    if kind == "violation":
        raise core.Violation(*value)
    if kind == "error":
        raise RuntimeError("restarted process failed:\n" + value)
    return value


def _handle(req):
    import importlib
    import traceback
    from sim import core
    try:
        return ("ok", getattr(importlib.import_module(req[0]), req[1])(req[2]))
    except core.Violation as v:
        return ("violation", (v.kind, v.detail))
    except Exception as e:
        from sim.runner import _from_library
        if _from_library(e):
            return ("violation", ("exception:" + type(e).__name__, traceback.format_exc()[-1500:]))
        return ("error", traceback.format_exc())


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    from sim import runner
    runner.boot()
    while True:
        try:
            req = _recv(inp)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(_handle(req)))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        _send(out, pickle.loads(b) if b else ("error", "the restarted process died"))


if __name__ == "__main__":
    main()
