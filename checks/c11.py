"""C11: the networkx view of a monoplex network and the network are one graph.

A history of operations by interleaved clients: some write through the
network (or the multiplex network it is a layer of), some through one of
several networkx views, some read through objects they took earlier.  After
every operation both sides are compared with a model."""
from sim import labels, rand
from sim.core import RealRandom, canon, exact
from checks import nxfun

SHRINK = ("ops",)
W = [1, 2, 3, 0.5, 2.25, -1, True, 0]


class Broken(Exception):
    pass


def generate(rng, tier):
    kind = rng.choice(["mono", "mono", "mono", "layer_al", "layer_na"])
    sc = {"kind": kind, "labels": rng.choice(labels.MODES + ("tuple",)), "salt": rng.getrandbits(30), "noedge": rng.choice([0, 0, 0, -5, None]) if kind == "mono" else 0,
          "seed": rng.getrandbits(40)}
    n = rng.randint(3, 7)
    clients = []
    for c in range(rng.randint(2, 4)):
        clients.append([op(rng, n) for _ in range(rng.randint(4, 14))])
    ops = []
    while any(clients):
        c = rng.choice([c for c in clients if c])
        ops.append(c.pop(0))
    sc["ops"] = ops
    return sc


def op(rng, n):
    i, j, k = rng.randrange(n), rng.randrange(n), rng.randrange(n)
    w = rng.choice(W)
    kind = rng.choice(["nset"] * 5 + ["nrem"] * 3 + ["nnode", "mset", "mother", "mnode", "mnodel"] +
                      ["vnode", "vnodes", "vedge", "vedge", "vedge", "vedgew", "vedgew", "vedgea", "vedges", "vwedges", "vupdate"] +
                      ["vrem", "vrem", "vrems", "vw", "vw2", "vw3", "vw4", "vpath", "vcycle", "vstar", "vclear"] +
                      ["badnode", "badnodes", "badrem", "badgen", "badclear", "view", "hold", "algo", "algo", "algo"])
    return [kind, i, j, k, w, rng.getrandbits(12)]


class Model(object):
    def __init__(self):
        self.nodes = set()
        self.e = {}

    def node(self, a):
        self.nodes.add(a)

    def set(self, a, b, w):
        self.node(a)
        self.node(b)
        self.e[frozenset((a, b))] = w

    def rem(self, a, b):
        self.e.pop(frozenset((a, b)), None)

    def has(self, a, b):
        return frozenset((a, b)) in self.e

    def edges(self):
        for f, w in self.e.items():
            t = sorted(f, key=repr)
            yield (t[0], t[-1], w)

    def nb(self, a):
        return dict((y if x == a else x, w) for x, y, w in self.edges() if a in (x, y))


def pair(a, b, w):
    return tuple(sorted((canon(a), canon(b)), key=repr)) + (exact(w),)


class World(object):
    def __init__(self, sc, ctx):
        import networkx
        import pymnet
        self.X, self.P, self.nx, self.ctx, self.sc = networkx, pymnet, pymnet.nx, ctx, sc
        self.m = Model()
        k = sc["kind"]
        self.mux = None
        if k == "mono":
            self.net = pymnet.MultilayerNetwork(aspects=0, noEdge=sc["noedge"])
        else:
            self.mux = pymnet.MultiplexNetwork(couplings="categorical", fullyInterconnected=k == "layer_al")
            self.mux.add_layer("X")
            self.mux.add_layer("Y")
            self.net = self.mux.A["X"]
        if sc["labels"] == "tuple":
            self.vl = lambda i: (i, "t")
            self.nl = lambda i: pymnet.nxwrap.ntuple((i, "t")) if hasattr(pymnet, "nxwrap") else pymnet.nx.ntuple((i, "t"))
        else:
            node, layer = labels.make(sc["labels"], sc["salt"])
            self.vl = self.nl = node
        self.views = [self.nx.autowrap(self.net)]
        self.held = []
        self.table = [f for f in nxfun.table() if not f.cb and not f.gen and not f.name.startswith("err:")]
        self.bulk = nxfun.bulk()

    def is_none(self, w):
        return w == self.sc["noedge"]

    # ---- comparison
    def agree(self, what, full=False):
        ctx, m = self.ctx, self.m
        nodes = sorted((canon(n) for n in m.nodes), key=repr)
        edges = sorted((pair(*e) for e in m.edges()), key=repr)
        got = sorted((canon(n) for n in self.net), key=repr)
        ctx.check(got == nodes, "network-nodes:" + what, lambda: "network has %r, should have %r" % (got, nodes))
        got = sorted((pair(*tuple(e)) for e in self.net.edges), key=repr)
        ctx.check(got == edges, "network-edges:" + what, lambda: "network has %r, should have %r" % (got, edges))
        for v in self.views:
            got = sorted((canon(n) for n in v), key=repr)
            ctx.check(got == nodes and len(v) == len(nodes) and v.number_of_nodes() == len(nodes), "view-nodes:" + what, lambda: "view has %r (%d), should have %r" % (got, len(v), nodes))
            es = list(v.edges(data="weight"))
            got = sorted((pair(*e) for e in es), key=repr)
            ctx.check(got == edges, "view-edges:" + what, lambda: "view has %r, should have %r" % (got, edges))
            ctx.check(v.number_of_edges() == len(edges), "view-edge-count:" + what, lambda: "%d edges, should be %d" % (v.number_of_edges(), len(edges)))
            if full:
                self.full(v, what, nodes, edges)
        for kind, a, b, o in self.held:
            self.check_held(kind, a, b, o, what, nodes, edges)

    def full(self, v, what, nodes, edges):
        ctx, m = self.ctx, self.m
        for a in sorted(m.nodes, key=repr):
            nb = dict((canon(x), canon(w)) for x, w in m.nb(a).items())
            for name, got in (("adj", dict((canon(x), canon(d["weight"])) for x, d in v[a].items())),
                              ("adjacency", dict((canon(x), canon(d["weight"])) for x, d in dict(v.adjacency())[a].items())),
                              ("neighbors", dict((canon(x), nb.get(canon(x))) for x in v.neighbors(a)))):
                ctx.check(got == nb, "view-%s:%s" % (name, what), lambda: "%s of %r: %r, should be %r" % (name, a, got, nb))
            loop = 1 if m.has(a, a) else 0
            ctx.check(v.degree(a) == len(nb) + loop, "view-degree:" + what, lambda: "degree of %r is %r, neighbours %r" % (a, v.degree(a), nb))
            nums = dict((x, w) for x, w in m.nb(a).items())
            if all(type(w) in (int, float) for w in nums.values()):
                want = sum(nums.values()) + (nums[a] if loop else 0)
                got = v.degree(a, weight="weight")
                ctx.check(abs(got - want) <= 1e-9 * max(1, abs(want)), "view-weighted-degree:" + what, lambda: "of %r: %r, should be %r" % (a, got, want))
            got = sorted((canon(x[1] if x[0] == a else x[0]) for x in v.edges(a)), key=repr)
            ctx.check(got == sorted(nb, key=repr), "view-edges-of:" + what, lambda: "edges of %r: %r, should lead to %r" % (a, got, sorted(nb, key=repr)))
            ctx.check(len(v[a]) == len(nb), "view-adj:" + what, lambda: "%d neighbours of %r, should be %d" % (len(v[a]), a, len(nb)))
            ctx.check(v.has_node(a) and a in v and a in v.nodes, "view-membership:" + what, repr(a))
            for b in sorted(m.nodes, key=repr):
                w = m.e.get(frozenset((a, b)), "none")
                ctx.check(v.has_edge(a, b) == (w != "none"), "view-has-edge:" + what, lambda: "%r-%r: %r, weight %r" % (a, b, v.has_edge(a, b), w))
                d = v.get_edge_data(a, b)
                ctx.check((d is None) == (w == "none") and (d is None or canon(d["weight"]) == canon(w)), "view-edge-data:" + what, lambda: "%r-%r: %r" % (a, b, d))
                if w != "none":
                    ctx.check(canon(v.edges[a, b]["weight"]) == canon(w) and canon(v[a][b].get("weight", 7)) == canon(w), "view-edge-data:" + what, repr((a, b)))
                    ctx.check(len(v[a][b]) == 1 and list(v[a][b]) == ["weight"] and canon(dict(v[a][b])["weight"]) == canon(w), "view-edge-data:" + what, repr((a, b)))
                ctx.check((b in v[a]) == (w != "none"), "view-has-edge:" + what, lambda: "%r in the neighbours of %r: %r" % (b, a, b in v[a]))
        loops = sorted((canon(n) for n in self.X.nodes_with_selfloops(v)), key=repr)
        want = sorted((canon(n) for n in m.nodes if m.has(n, n)), key=repr)
        ctx.check(loops == want, "view-loops:" + what, lambda: "self-loops at %r, should be %r" % (loops, want))
        absent = self.vl(12)
        ctx.check(not v.has_node(absent) and absent not in v and not v.has_edge(absent, absent), "view-membership:" + what, "absent node is shown")
        # a copy is a new network, whose no-edge value is 0
        zero = any(w == 0 for w in m.e.values())
        for c in ([self.X.Graph(v)] if zero else [v.copy(), self.X.Graph(v)]):
            got = (sorted((canon(n) for n in c), key=repr), sorted((pair(*e) for e in c.edges(data="weight")), key=repr))
            ctx.check(got == (nodes, edges), "view-copy:" + what, lambda: "copy has %r" % (got,))

    def check_held(self, kind, a, b, o, what, nodes, edges):
        ctx, m = self.ctx, self.m
        if kind == "nbrs":
            got, want = sorted((repr(canon(x)) for x in o)), sorted(repr(canon(x)) for x in m.nb(a))
        elif kind == "edge":
            if not m.has(a, b):
                return
            got, want = canon(o["weight"]), canon(m.e[frozenset((a, b))])
        elif kind == "edges":
            got, want = sorted((pair(*e) for e in o(data="weight")), key=repr), edges
        elif kind == "nodes":
            got, want = sorted((canon(x) for x in o), key=repr), nodes
        elif kind == "degree":
            got = dict((canon(x), d) for x, d in o)
            want = dict((canon(x), len(m.nb(x)) + (1 if m.has(x, x) else 0)) for x in m.nodes)
        else:
            got = sorted((pair(*e) for e in o.edges(data="weight")), key=repr)
            want = sorted((pair(*e) for e in m.edges() if e[0] in a and e[1] in a), key=repr)
        ctx.check(got == want, "held-%s:%s" % (kind, what), lambda: "object taken earlier shows %r, now %r" % (got, want))


def execute(sc, ctx):
    rand.reset(sc["seed"])
    w = World(sc, ctx)
    for n, o in enumerate(sc["ops"]):
        ctx.steps += 1
        done = step(w, sc, ctx, o)
        ctx.emit(o[0], repr(o[1:]), str(done), repr(sorted(map(repr, w.m.edges())))[:200])
        if done is not False:
            ctx.hit("op:" + o[0])
            w.agree(o[0], full=(o[5] % 4 == 0))
    w.agree("end", full=True)
    ctx.nontrivial = len(sc["ops"]) > 5 and len(w.m.e) > 0


def step(w, sc, ctx, o):
    kind, i, j, k, wt, code = o
    m, X, nx = w.m, w.X, w.nx
    a, b, c = w.vl(i), w.vl(j), w.vl(k)
    na, nb_ = w.nl(i), w.nl(j)
    v = w.views[code % len(w.views)]
    lib = X if code & 16 else nx
    G = v if code & 32 or lib is X else w.net
    if lib is nx and code & 64:
        lib = nxfun.KwModule(nx)
    aligned = sc["kind"] == "layer_al"
    if w.is_none(wt):
        wt = 1
    if kind[0] in "nm" and i == j and w.mux is not None and kind in ("mset", "mother"):
        return False
    if kind == "nset":
        w.net[na, nb_] = wt
        m.set(a, b, wt)
    elif kind == "nrem":
        w.net[na, nb_] = w.net.noEdge
        m.node(a)
        m.node(b)
        m.rem(a, b)
    elif kind == "nnode":
        w.net.add_node(na)
        m.node(a)
    elif kind in ("mset", "mother", "mnode", "mnodel"):
        if w.mux is None:
            return False
        if kind == "mset":
            w.mux[na, nb_, "X", "X"] = wt
            m.set(a, b, wt)
        elif kind == "mother":
            w.mux[na, nb_, "Y"] = wt
            if aligned:
                m.node(a)
                m.node(b)
        elif kind == "mnode":
            w.mux.add_node(na)
            if aligned:
                m.node(a)
        else:
            w.mux.add_node(na, layer="X" if code & 8 else "Y")
            if aligned or code & 8:
                m.node(a)
    elif kind == "vnode":
        v.add_node(a)
        m.node(a)
    elif kind == "vnodes":
        v.add_nodes_from([a, b] if code & 64 else iter([a, (b, {"color": 1})] if sc["labels"] != "tuple" else [a]))
        m.node(a)
        if code & 64 or sc["labels"] != "tuple":
            m.node(b)
    elif kind == "vedge":
        if not m.has(a, b) and w.is_none(1):
            return False
        v.add_edge(a, b)
        m.set(a, b, m.e.get(frozenset((a, b)), 1))
    elif kind == "vedgew":
        v.add_edge(a, b, weight=wt)
        m.set(a, b, wt)
    elif kind == "vedgea":
        v.add_edge(a, b, color="red", weight=wt)
        m.set(a, b, wt)
    elif kind == "vedges":
        v.add_edges_from([(a, b), (b, c, {"weight": wt})], weight=2)
        m.set(a, b, 2)
        m.set(b, c, wt)
    elif kind == "vwedges":
        v.add_weighted_edges_from([(a, b, wt), (a, c, 3)])
        m.set(a, b, wt)
        m.set(a, c, 3)
    elif kind == "vupdate":
        v.update(edges=[(a, b, {"weight": wt})], nodes=[c])
        m.set(a, b, wt)
        m.node(c)
    elif kind == "vrem":
        if not m.has(a, b):
            return False
        v.remove_edge(a, b)
        m.rem(a, b)
    elif kind == "vrems":
        v.remove_edges_from([(a, b), (b, c)])
        m.rem(a, b)
        m.rem(b, c)
    elif kind in ("vw", "vw2"):
        if not m.has(a, b):
            return False
        (v[a][b] if kind == "vw" else v.edges[a, b])["weight"] = wt
        m.set(a, b, wt)
    elif kind == "vw3":
        lib.set_edge_attributes(G, wt, "weight")
        for x, y, _ in list(m.edges()):
            m.set(x, y, wt)
    elif kind == "vw4":
        lib.set_edge_attributes(G, {(a, b): {"weight": wt}})
        if m.has(a, b):
            m.set(a, b, wt)
    elif kind in ("vpath", "vcycle", "vstar"):
        if len(set((i, j, k))) < 3:
            return False
        ns = [a, b, c]
        {"vpath": lib.add_path, "vcycle": lib.add_cycle, "vstar": lib.add_star}[kind](G, ns, weight=wt)
        es = {"vpath": [(a, b), (b, c)], "vcycle": [(a, b), (b, c), (c, a)], "vstar": [(a, b), (a, c)]}[kind]
        for x, y in es:
            m.set(x, y, wt)
    elif kind == "vclear":
        if code % 3:
            return False
        v.clear_edges()
        m.e.clear()
    elif kind in ("badnode", "badnodes", "badclear"):
        if not m.nodes:
            return False
        x = sorted(m.nodes, key=repr)[code % len(m.nodes)]
        try:
            v.remove_node(x) if kind == "badnode" else (v.remove_nodes_from([x]) if kind == "badnodes" else v.clear())
        except Exception:
            ctx.fault("refused")
        else:
            ctx.fail("node-removed", "removing %r did not raise" % (x,))
    elif kind == "badrem":
        if m.has(a, b):
            return False
        try:
            v.remove_edge(a, b)
        except X.NetworkXError:
            ctx.fault("refused")
        else:
            ctx.fail("missing-edge-removed", "removing the missing edge %r-%r did not raise" % (a, b))
    elif kind == "badgen":
        def gen():
            yield (a, b, {"weight": wt})
            raise Broken("injected")
        try:
            v.add_edges_from(gen())
        except Broken:
            ctx.fault("iterator_error")
        else:
            ctx.fail("error-lost", "error of the caller's iterator did not surface")
        m.set(a, b, wt)
    elif kind == "view":
        if len(w.views) < 3:
            w.views.append(nx.autowrap(w.net) if code & 8 else nx.MonoplexGraphNetworkxView(w.net))
    elif kind == "hold":
        hold(w, v, a, b, code)
    elif kind == "algo":
        algo(w, ctx, v, code, i)
    return True


def hold(w, v, a, b, code):
    m = w.m
    if len(w.held) > 5:
        w.held.pop(0)
    k = code % 6
    if k == 0 and a in m.nodes:
        w.held.append(("nbrs", a, None, v[a]))
    elif k == 1 and m.has(a, b):
        w.held.append(("edge", a, b, v[a][b]))
    elif k == 2:
        w.held.append(("edges", None, None, v.edges))
    elif k == 3:
        w.held.append(("nodes", None, None, v.nodes))
    elif k == 4:
        w.held.append(("degree", None, None, v.degree))
    elif k == 5 and a in m.nodes and b in m.nodes:
        w.held.append(("subgraph", set([a, b]), None, v.subgraph([a, b])))


def algo(w, ctx, v, code, i):
    m = w.m
    if not m.nodes:
        return
    edges = list(m.edges())
    if any(e[2] is True or e[2] <= 0 for e in edges):
        return
    s = nxfun.Sel(m.nodes, edges, code)
    pool = w.bulk if code % 3 == 0 else [f for f in w.table if f.need(s)]
    f = pool[(code * 7 + i) % len(pool)]
    if f.bulk:
        g = nxfun.same_order(w.X, w.net)
    else:
        g = w.X.Graph()
        g.add_nodes_from(m.nodes)
        for x, y, wt in edges:
            g.add_edge(x, y, weight=wt)
    rand.reset(7)
    want = nxfun.outcome(f, w.X, w.X, g, s)[0]
    for what, lib, G in (("view", w.X, v), ("wrapped", w.nx, w.net)):
        rand.reset(7)
        got = nxfun.outcome(f, lib, w.X, G, s)[0]
        ctx.check(got == want, "algorithm:" + f.name, lambda: "on the %s %r, on a plain graph %r" % (what, got, want))
    ctx.hit("algo:" + f.name)


def shrink(sc):
    if sc["labels"] != "int":
        yield dict(sc, labels="int")
    if sc["kind"] != "mono":
        yield dict(sc, kind="mono")
    if sc["noedge"] != 0:
        yield dict(sc, noedge=0)
