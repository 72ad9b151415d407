"""Reference model of a multilayer network and helpers shared by checks."""
import math
import itertools

from sim import labels
from sim.core import canon

COLON = slice(None, None, None)


class RefNet(object):
    """Trivial executable model: sets of labels and a dict of edges."""

    def __init__(self, aspects, directed, aligned, no_edge=0):
        self.aspects = aspects
        self.directed = directed
        self.aligned = aligned or aspects == 0
        self.no_edge = no_edge
        self.nodes = set()
        self.layers = [set() for _ in range(aspects)]
        self.nls = set()            # node-layers of a non-aligned network
        self.e = {}                 # (nl1, nl2) -> weight; both ways if undirected

    def add_layer(self, l, aspect=1):
        self.layers[aspect - 1].add(l)

    def add_node(self, n, layer=None):
        self.nodes.add(n)
        if layer is not None and not self.aligned:
            for a, l in enumerate(layer):
                self.layers[a].add(l)
            self.nls.add((n,) + tuple(layer))

    def touch(self, nl):
        self.nodes.add(nl[0])
        for a, l in enumerate(nl[1:]):
            self.layers[a].add(l)
        if not self.aligned:
            self.nls.add(nl)

    def set(self, a, b, w):
        self.touch(a)
        self.touch(b)
        if w == self.no_edge:
            self.e.pop((a, b), None)
            if not self.directed:
                self.e.pop((b, a), None)
        else:
            self.e[(a, b)] = w
            if not self.directed:
                self.e[(b, a)] = w

    def get(self, a, b):
        return self.e.get((a, b), self.no_edge)

    def universe(self):
        return list(itertools.product(sorted(self.nodes, key=repr), *[sorted(l, key=repr) for l in self.layers]))

    def node_layers(self):
        return set(self.universe()) if self.aligned else set(self.nls)

    def out(self, a):
        return dict((y, w) for (x, y), w in self.e.items() if x == a)

    def inn(self, a):
        return dict((x, w) for (x, y), w in self.e.items() if y == a)

    def edges(self):
        """Each edge once: set of (end, end, weight), ends ordered if undirected."""
        s = set()
        for (a, b), w in self.e.items():
            if not self.directed and repr(a) > repr(b):
                a, b = b, a
            s.add((a, b, w))
        return s

    def copy(self):
        c = RefNet(self.aspects, self.directed, self.aligned, self.no_edge)
        c.nodes = set(self.nodes)
        c.layers = [set(l) for l in self.layers]
        c.nls = set(self.nls)
        c.e = dict(self.e)
        return c


def link(a, b):
    """(i,s,x),(j,r,y) -> (i,j,s,r,x,y)"""
    return tuple(v for p in zip(a, b) for v in p)


def big(rng, p=0.02):
    """Now and then a run is many times larger than the others."""
    return rng.random() < p


def idx(nl):
    """index usable in net[...]"""
    return nl[0] if len(nl) == 1 else tuple(nl)


def lay(nl):
    """layer argument for add_node/iter_nodes of a node-layer tuple"""
    return nl[1] if len(nl) == 2 else tuple(nl[1:])


def asnl(x, aspects):
    return (x,) if aspects == 0 else tuple(x)


def edge_ends(e, aspects):
    return (tuple(e[2 * k] for k in range(aspects + 1)), tuple(e[2 * k + 1] for k in range(aspects + 1)))


def edge_multiset(ctx, net, aspects, directed, opname="edges"):
    """Edges as the library iterates them, each normalised; a list."""
    out = []
    for e in ctx.call(opname, lambda: list(net.edges)):
        a, b = edge_ends(tuple(e), aspects)
        if not directed and repr(a) > repr(b):
            a, b = b, a
        out.append((a, b, e[-1]))
    return out


def labeler(sc):
    """Label makers from a scenario's label mode; nl(list of ints) -> tuple."""
    node, layer = labels.make(sc["labels"], sc.get("salt", 0))
    return node, layer


def mk_nl(sc_nl, node, layer):
    return (node(sc_nl[0]),) + tuple(layer(v, a + 1) for a, v in enumerate(sc_nl[1:]))


def same(a, b):
    return canon(a) == canon(b)


class RefMux(object):
    """Model of a multiplex network: couplings are generated, layers are maps."""

    def __init__(self, couplings, directed, aligned, no_edge=0):
        self.couplings = couplings      # per aspect: (type, weight) or ("net", {(l1, l2): w})
        self.aspects = len(couplings)
        self.directed = directed
        self.aligned = aligned
        self.no_edge = no_edge
        self.nodes = set()
        self.layers = [set() for _ in couplings]
        self.lnodes = {}                # layer tuple -> nodes on it (non-aligned)
        self.intra = {}                 # layer tuple -> {(i, j): w}

    def layer_tuples(self):
        return list(itertools.product(*[sorted(l, key=repr) for l in self.layers]))

    def on(self, n, l):
        return n in self.nodes and (self.aligned or n in self.lnodes.get(l, ()))

    def add_node(self, n, layer=None):
        self.nodes.add(n)
        if layer is not None and not self.aligned:
            self.touch_layer(layer)
            self.lnodes.setdefault(layer, set()).add(n)

    def add_layer(self, l, aspect=1):
        self.layers[aspect - 1].add(l)

    def touch_layer(self, layer):
        for a, l in enumerate(layer):
            self.layers[a].add(l)

    def set(self, i, j, layer, w):
        self.touch_layer(layer)
        self.add_node(i, layer)
        self.add_node(j, layer)
        d = self.intra.setdefault(layer, {})
        for k in ([(i, j)] if self.directed else [(i, j), (j, i)]):
            if w == self.no_edge:
                d.pop(k, None)
            else:
                d[k] = w

    def replace(self, layer, nodes, edges):
        """edges: {(i, j): w}, both ways if undirected"""
        self.intra[layer] = dict(edges)
        self.lnodes[layer] = set()
        for n in nodes:
            self.add_node(n, layer)

    def node_layers(self):
        return set((n,) + l for l in self.layer_tuples() for n in self.nodes if self.on(n, l))

    def coupling(self, aspect, l1, l2):
        t, w = self.couplings[aspect - 1]
        if t == "categorical":
            return w
        if t == "ordinal":
            return w if abs(l1 - l2) == 1 else None
        if t == "net":
            return w.get((l1, l2))
        return None

    def flat(self):
        m = RefNet(self.aspects, self.directed, self.aligned, self.no_edge)
        m.nodes = set(self.nodes)
        m.layers = [set(l) for l in self.layers]
        m.nls = self.node_layers()
        for layer, d in self.intra.items():
            for (i, j), w in d.items():
                m.e[((i,) + layer, (j,) + layer)] = w
        for nl in m.nls:
            for a in range(1, self.aspects + 1):
                for l in self.layers[a - 1]:
                    if l != nl[a]:
                        other = nl[:a] + (l,) + nl[a + 1:]
                        if other in m.nls:
                            w = self.coupling(a, nl[a], l)
                            if w is not None:
                                m.e[(nl, other)] = w
        m.fuzzy_total = self.directed and any(t != "none" for t, w in self.couplings)
        return m


def shrink_plan(check, sc):
    """Simpler thread schedules: first the switches that were made, spelt out,
    then fewer of them."""
    from sim import runner, sched
    plan = sc["plan"]
    if plan["mode"] == "random":
        sched.last["switches"] = []
        runner.run_one(check, sc)
        if sched.last["switches"]:
            yield dict(sc, plan={"mode": "explicit", "switches": sched.last["switches"]})
        return
    sw = plan["switches"]
    n = len(sw) // 2
    while n >= 1:
        for i in range(0, len(sw), n):
            yield dict(sc, plan={"mode": "explicit", "switches": sw[:i] + sw[i + n:]})
        n //= 2


def divergence(a, q):
    """Of a coin that shows a from one that should show q."""
    d = 0.0
    for x, y in ((a, q), (1 - a, 1 - q)):
        if x > 0:
            if y <= 0:
                return float("inf")
            d += x * math.log(x / y)
    return d
