"""Randomness seam: every draw made through the `random` module (module level
functions and new random.Random objects) is decided by the simulator."""
import random
import sys

from .core import RealRandom, Inconclusive, derive

_state = {"mode": "mt", "salt": 0, "entropy": None, "budget": None, "draws": 0, "hook": None}
EDGE = (0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53, 0.5 - 2.0 ** -54)


class DrawBudget(BaseException):
    pass


def _count():
    _state["draws"] += 1
    b = _state["budget"]
    if b is not None and _state["draws"] > b:
        raise DrawBudget()
    h = _state["hook"]
    if h is not None:
        h()


class SimRandom(RealRandom):
    """Stream = function of (salt, mode, seed).  Modes shape the values:
    mt       plain Mersenne twister
    edge     about 1/3 of the draws are boundary values (0.0, 1-2^-53, ...)
    sticky   a draw often repeats an earlier one
    low/high values squeezed towards 0 / towards 1, with fresh draws mixed in
    """

    def __init__(self, x=None):
        self._inner = None
        RealRandom.__init__(self, 0)
        self._sim_seed(x)

    def __new__(cls, x=None):
        return RealRandom.__new__(cls)

    def _sim_seed(self, x):
        if x is None:
            x = ("entropy", _state["entropy"].getrandbits(62) if _state["entropy"] else 0)
        try:
            key = "%s:%r" % (type(x).__name__, x)
        except Exception:
            key = "obj"
        self._inner = RealRandom(derive("simrandom", _state["salt"], key))
        self._mode = _state["mode"]
        self._last = 0.25
        self._lastbits = 1

    def seed(self, a=None, version=2):
        if getattr(self, "_inner", None) is None:
            return
        self._sim_seed(a)
        self.gauss_next = None

    def random(self):
        _count()
        r = self._inner.random()
        m = self._mode
        if m == "edge":
            if self._inner.random() < 0.34:
                r = EDGE[self._inner.getrandbits(8) % len(EDGE)]
        elif m == "sticky":
            if self._inner.random() < 0.5:
                r = self._last
        elif m == "low":
            if self._inner.random() < 0.6:
                r = r * 2.0 ** -10
        elif m == "high":
            if self._inner.random() < 0.6:
                r = 1.0 - (1 - r) * 2.0 ** -10
                if r >= 1.0:
                    r = 1.0 - 2.0 ** -53
        self._last = r
        return r

    def getrandbits(self, k):
        _count()
        if k == 0:
            return 0
        v = self._inner.getrandbits(k)
        m = self._mode
        if m == "edge":
            if self._inner.random() < 0.34:
                v = 0 if self._inner.random() < 0.5 else (1 << k) - 1
        elif m == "sticky":
            if self._inner.random() < 0.5:
                v = self._lastbits & ((1 << k) - 1)
        elif m == "low":
            if self._inner.random() < 0.6:
                v >>= k // 2
        elif m == "high":
            if self._inner.random() < 0.6:
                v |= ((1 << k) - 1) ^ ((1 << (k // 2)) - 1)
        self._lastbits = v
        return v

    def randbytes(self, n):
        return self.getrandbits(n * 8).to_bytes(n, "little")

    def getstate(self):
        return ("sim", self._inner.getstate(), self._mode, self._last, self._lastbits, self.gauss_next)

    def setstate(self, s):
        if s[0] != "sim":
            raise ValueError("foreign state")
        self._inner.setstate(s[1])
        self._mode, self._last, self._lastbits, self.gauss_next = s[2:]


class SimSystemRandom(SimRandom):
    def seed(self, *a, **k):
        return None


MODES = ("mt", "mt", "edge", "sticky", "low", "high")
_installed = {}


def install():
    """Must run before pymnet / networkx are imported."""
    if _installed:
        return
    assert "pymnet" not in sys.modules and "networkx" not in sys.modules
    inst = SimRandom(0)
    _installed["inst"] = inst
    random._inst = inst
    for name in ("seed random uniform triangular randint choice randrange sample shuffle choices "
                 "normalvariate lognormvariate expovariate vonmisesvariate gammavariate gauss "
                 "betavariate binomialvariate paretovariate weibullvariate getstate setstate "
                 "getrandbits randbytes").split():
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    random.Random = SimRandom
    random.SystemRandom = SimSystemRandom


def reset(seed, mode="mt", budget=200000):
    """Start of a run: the stream, its shape and the draw budget."""
    _state["salt"] = seed
    _state["mode"] = mode
    _state["entropy"] = RealRandom(derive("entropy", seed))
    _state["budget"] = budget
    _state["draws"] = 0
    _state["hook"] = None
    _installed["inst"]._sim_seed(("init", seed))
    _installed["inst"].gauss_next = None
    import numpy
    numpy.random.seed(derive("np", seed) & 0xFFFFFFFF)


def resume_budget(budget=200000):
    """Restart the draw count (several generator calls in one run)."""
    _state["draws"] = 0
    _state["budget"] = budget


def set_hook(h):
    _state["hook"] = h


def draws():
    return _state["draws"]


def inst():
    return _installed["inst"]
