"""Thread scheduler: real threads, but exactly one runs at a time and the
simulator decides at every executed line of library code who runs next.
Locks created by the library are replaced by SimLock so that waiting is a
scheduling event and never a real wait."""
import _thread
import sys
import threading

from .core import PYMNET_DIR, SimInterrupt, RealRandom, Hang

_real_lock = _thread.allocate_lock
_current = None       # the active Sched
_tid = threading.local()
last = {"switches": []}   # schedule of the latest run, for minimisation


class _Baton(object):
    """A binary semaphore on a raw lock, so patched locks are not involved."""

    def __init__(self):
        self._l = _real_lock()
        self._l.acquire()

    def wait(self):
        self._l.acquire()

    def post(self):
        self._l.release()


class SimLock(object):
    """Lock / RLock seen by the library."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_tid, "t", "main")
        s = _current
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if s is None or me == "main":
                raise RuntimeError("SimLock would block outside the simulation")
            if timeout is not None and timeout >= 0:
                return False
            s._block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._count == 0:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if _current is not None:
                _current._unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == getattr(_tid, "t", "main")


def _caller_is_library():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(PYMNET_DIR)


def install():
    """Locks made by library code (module level or at run time) are SimLocks."""
    lock, rlock = threading.Lock, threading.RLock

    def make_lock():
        return SimLock() if _caller_is_library() else lock()

    def make_rlock():
        return SimRLock() if _caller_is_library() else rlock()

    threading.Lock = make_lock
    threading.RLock = make_rlock


class _Thread(object):
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.baton = _Baton()
        self.done = False
        self.blocked_on = None
        self.result = None
        self.lines = 0


class Deadlock(Exception):
    pass


class Sched(object):
    """plan: {"mode": "random", "seed": s, "p": 0.05} or
             {"mode": "explicit", "switches": [[yield_index, tid], ...]}
    interrupts: {tid: (k, name)}: raise at the k-th library line of that thread
    trace: predicate on file names whose lines are yield points"""

    def __init__(self, plan, interrupts=None, prefixes=None, max_yields=400000, shielded=("nxwrap.py",)):
        # shielded: file names in which no interrupt is raised (code that
        # swaps global state has no atomic way of doing so in Python)
        self.shielded = tuple(shielded)
        self._shield = {}
        self.plan = plan
        self.rng = RealRandom(plan.get("seed", 0))
        self.p = plan.get("p", 0.05)
        self.explicit = None
        if plan["mode"] == "explicit":
            self.explicit = dict((int(a), int(b)) for a, b in plan["switches"])
        self.interrupts = interrupts or {}
        self.prefixes = tuple(prefixes or (PYMNET_DIR,))
        self.threads = []
        self.yields = 0
        self.switches = []
        self.max_yields = max_yields
        self.main = _Baton()
        self.dead = None
        self.fired = []
        self.hooks = []
        self._files = {}

    def spawn(self, fn):
        t = _Thread(len(self.threads), fn)
        self.threads.append(t)
        return t

    # -- scheduling
    def _runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    def _pick(self, me, forced):
        """Who runs next at this yield point.  forced: me cannot continue."""
        idx = self.yields
        run = self._runnable()
        if not run:
            return None
        if self.explicit is not None:
            want = self.explicit.get(idx)
            if want is not None:
                for t in run:
                    if t.tid == want:
                        return t
            return run[0] if forced else me
        if forced or self.rng.random() < self.p:
            return run[self.rng.randrange(len(run))]
        return me

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.switches.append([self.yields, nxt.tid])
        nxt.baton.post()
        me.baton.wait()
        if self.dead is not None:
            raise Hang(self.dead)

    def _yield(self, me):
        self.yields += 1
        if self.yields > self.max_yields:
            self.dead = "steps"
            raise Hang("steps")
        nxt = self._pick(me, False)
        self._switch(me, nxt)

    def _block(self, lock):
        me = self.threads[_tid.t]
        me.blocked_on = lock
        self.yields += 1
        nxt = self._pick(me, True)
        if nxt is None:
            self.dead = "deadlock"
            self._release_all(me)
            raise Deadlock("all simulated threads are blocked")
        self._switch(me, nxt)

    def _unblock(self, lock):
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None

    def _release_all(self, me):
        for t in self.threads:
            if t is not me and not t.done:
                t.blocked_on = None
                t.baton.post()

    # -- tracing
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ok = self._files.get(fn)
        if ok is None:
            self._shield[fn] = any(fn.endswith(x) for x in self.shielded)
            ok = self._files[fn] = any(fn.startswith(p) for p in self.prefixes)
        return self._local if ok else None

    def _local(self, frame, event, arg):
        if event == "line":
            me = self.threads[_tid.t]
            it = self.interrupts.get(me.tid)
            hit = False
            if not self._shield[frame.f_code.co_filename]:
                me.lines += 1
                hit = it is not None and me.lines == it[0]
            if hit:
                self.fired.append((me.tid, it[1]))
                raise {"interrupt": SimInterrupt, "memory": MemoryError}[it[1]]("injected")
            self._yield(me)
        return self._local

    def _boot(self, t):
        _tid.t = t.tid
        t.baton.wait()
        if self.dead is None:
            try:
                sys.settrace(self._trace)
                try:
                    t.result = ("ok", t.fn())
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa
                t.result = ("exc", e)
        else:
            t.result = ("exc", Hang(self.dead))
        t.done = True
        run = self._runnable()
        if run and self.dead is None:
            self.yields += 1
            nxt = self._pick(t, True)
            self.switches.append([self.yields, nxt.tid])
            nxt.baton.post()
        elif all(x.done for x in self.threads):
            self.main.post()
        elif self.dead is None:
            self.dead = "deadlock"
            self._release_all(t)
        elif self.dead == "steps":
            self._release_all(t)
            self.dead = "steps!"

    def run(self):
        """Runs all threads to completion; returns their results."""
        global _current
        _current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._boot, (t,))
            self.yields += 1
            first = self._pick(self.threads[0], True)
            self.switches.append([self.yields, first.tid])
            first.baton.post()
            self.main.wait()
        finally:
            _current = None
            last["switches"] = self.switches
        if self.dead and self.dead.startswith("steps"):
            raise Hang("steps")
        return [t.result for t in self.threads]
