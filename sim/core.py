"""Core of the simulator: run context, violations, seeds, known findings."""
import copy
import collections
import hashlib
import json
import os
import random as _random_module

# the genuine generator class, captured before anything is patched
RealRandom = _random_module.Random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYMNET_DIR = os.path.join(os.path.realpath(REPO), "pymnet") + os.sep


class Violation(Exception):
    """The property is broken.  `kind` is the violation class: it stays the
    same while a failing scenario is minimised, and it is what a known finding
    is matched against."""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = str(detail)[:2000]


class Inconclusive(Exception):
    """The run cannot be judged (e.g. an unbounded rejection loop)."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """Asynchronous interruption injected by the simulator."""


class Hang(BaseException):
    """Step budget exceeded / alarm fired."""


def derive(*parts):
    """A 63 bit integer from the parts: the only way seeds are derived."""
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng_for(*parts):
    return RealRandom(derive(*parts))


class Ctx(object):
    """Everything one simulated run records.  Nothing in here draws random
    numbers or reads a clock."""

    def __init__(self):
        self.log = []
        self.probes = collections.Counter()
        self.faults = collections.Counter()
        self.steps = 0
        self.nontrivial = False
        self.inconclusive = None

    def emit(self, *parts):
        self.log.append(" ".join(p if isinstance(p, str) else repr(p) for p in parts))

    def hit(self, name, n=1):
        self.probes[name] += n

    def fault(self, name, n=1):
        self.faults[name] += n

    def fail(self, kind, detail=""):
        self.emit("VIOLATION", kind)
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def call(self, opname, fn, *a, **k):
        """Call code under test where an exception would be a violation."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Inconclusive:
            raise
        except Exception as e:  # noqa
            self.fail("exception:%s:%s" % (opname, type(e).__name__),
                      "%s raised %s: %s" % (opname, type(e).__name__, e))

    def digest(self):
        h = hashlib.sha256()
        for l in self.log:
            h.update(l.encode("utf-8", "surrogatepass"))
            h.update(b"\n")
        return h.hexdigest()[:16]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def match_known(known, prop, kind):
    for k in known:
        if k["property"] == prop and k["kind"] == kind:
            return k
    return None


def canon(x):
    """A canonical, order-free, hashable description of a result value."""
    import numpy
    if isinstance(x, float):
        if x != x:
            return ("nan",)
        return ("f", float("%.9g" % x)) if x not in (float("inf"), float("-inf")) else ("f", x)
    if isinstance(x, (bool, type(None))):
        return x
    if isinstance(x, int):
        return ("f", float(x)) if abs(x) < 2 ** 53 else ("i", x)
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((repr(canon(k)), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(canon(v) for v in x)
    if isinstance(x, numpy.ndarray):
        return ("arr", x.shape) + tuple(canon(float(v)) for v in numpy.asarray(x).ravel())
    if isinstance(x, numpy.generic):
        return canon(x.item())
    if hasattr(x, "slices") and hasattr(x, "edges"):
        return net_snapshot(x)
    return ("repr", repr(x))


def exact(x):
    """Like canon, for values that are stored and not computed: no rounding."""
    if isinstance(x, float) and x == x:
        return ("f", x)
    return canon(x)


def net_snapshot(net):
    """Observable content of a network through the public interface only."""
    asp = net.aspects
    nodes = sorted((exact(n) for n in net), key=repr)
    layers = [sorted((canon(l) for l in net.get_layers(a)), key=repr) for a in range(1, asp + 1)]
    nls = sorted((canon(nl) for nl in net.iter_node_layers()), key=repr)
    edges = []
    for e in net.edges:
        e = tuple(e)
        ends = [net_end(e, 0, asp), net_end(e, 1, asp)]
        if not net.directed:
            ends.sort(key=repr)
        edges.append((ends[0], ends[1], exact(e[-1])))
    edges.sort(key=repr)
    return ("net", type(net).__name__, asp, net.directed, net.fullyInterconnected,
            canon(net.noEdge), tuple(nodes), repr(layers), tuple(nls), tuple(edges))


class Frozen(tuple):
    """A snapshot to be compared with later ones of the same network: these
    agree if the content does, and the network still equals a copy made at the
    time of the first."""

    def __eq__(self, other):
        return tuple.__eq__(self, other) and (self.twin is None or (self.net == self.twin and self.twin == self.net))

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def freeze(net, snap=None):
    f = Frozen(net_snapshot(net) if snap is None else snap)
    f.net, f.twin = net, copy.deepcopy(net)
    if f.twin != net:
        # a weight that is not equal to itself
        f.twin = None
    return f


def net_end(e, i, asp):
    return tuple(exact(e[2 * a + i]) for a in range(asp + 1))
