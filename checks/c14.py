"""C14: a checkpointed network restores exactly, even in a new process.

A history of writes with checkpoints at drawn points.  Forks (deepcopy, pickle
in every protocol) make replicas that then get the same or different writes; a
crash loses everything but the last saved bytes, and work goes on from those
under another hash order (another salt for simulated labels, or a process with
another hash seed)."""
import copy
import pickle

from sim import labels
from sim.core import Ctx
from checks import c01, c03, mux, restart
from checks.common import RefNet, asnl, edge_multiset, idx, lay, link, mk_nl

SHRINK = ("ops",)


def generate(rng, tier):
    if rng.random() < 0.5:
        sc = mux.gen_config(rng)
        ops = mux.gen_ops(rng, sc, rng.randint(2, 20 if tier == "quick" else 50))
        sc["kind"] = "mux"
    else:
        sc = c01.generate(rng, "quick")
        ops = [o for o in sc["ops"] if o[0] in ("set", "del", "node", "layer", "hold")]
        sc["kind"] = "ml"
    out = []
    nrep = 1
    mask = None
    for op in ops:
        if rng.random() < 0.3:
            mask = rng.choice([None, None, [0], [1], [2]])
        out.append([mask, op])
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.5:
            o = ["fork", rng.randrange(3), how(rng)]
        elif r < 0.62:
            o = ["forkA", rng.randrange(3), how(rng), rng.randrange(50)]
        elif r < 0.75:
            o = ["save", rng.randrange(3), how(rng)]
        elif r < 0.92:
            o = ["crash", "salt", rng.getrandbits(30)]
        else:
            o = ["crash", "process", rng.randrange(2), rng.randint(0, 8)]
        out.insert(rng.randint(0, len(out)), [None, o])
    sc["ops"] = out
    return sc


def how(rng):
    return rng.choice(["deep", "p0", "p1", "p2", "p3", "p4", "p5"])


def dump(obj, h):
    return pickle.dumps(obj, int(h[1]) if h != "deep" else 2)


class MlSim(object):
    """Writes to a multilayer network and to its model."""

    def __init__(self, sc, ctx):
        import pymnet
        self.sc, self.ctx = sc, ctx
        self.node, self.layer = labels.make(sc["labels"], sc["salt"])
        self.noedge = c01.NOEDGES[sc["noedge"]]
        self.net = pymnet.MultilayerNetwork(aspects=sc["aspects"], noEdge=self.noedge, directed=sc["directed"], fullyInterconnected=sc["aligned"])
        self.m = RefNet(sc["aspects"], sc["directed"], sc["aligned"], self.noedge)
        self.handles = {}
        self.wn = 0

    def step(self, op):
        net, m, ctx, asp = self.net, self.m, self.ctx, self.sc["aspects"]
        k = op[0]
        if k in ("set", "del"):
            a, b = mk_nl(op[3], self.node, self.layer), mk_nl(op[4], self.node, self.layer)
            if k == "del":
                if a[0] not in m.nodes or b[0] not in m.nodes or any(x[i + 1] not in m.layers[i] for x in (a, b) for i in range(asp)) \
                        or (not m.aligned and (a not in m.nls or b not in m.nls)):
                    return
                w = self.noedge
            else:
                self.wn += 1
                n = self.wn
                w = {"int": n + 10, "float": n + 0.5, "neg": -n - 10, "zero": 0, "same": 1}[op[5]]
                if w == self.noedge:
                    w = n + 10
            if op[2] == "short" and asp and a[1:] == b[1:]:
                ctx.call(k, net.__setitem__, (a[0], b[0]) + a[1:], w)
            elif op[2] == "handle" and a in self.handles:
                ctx.call(k, self.handles[a].__setitem__, idx(b), w)
            elif op[2] == "node":
                ctx.call(k, net[idx(a)].__setitem__, idx(b), w)
            else:
                ctx.call(k, net.__setitem__, link(a, b), w)
            m.set(a, b, w)
        elif k == "node":
            a = mk_nl(op[2], self.node, self.layer)
            if op[3] and asp:
                ctx.call("add_node", net.add_node, a[0], layer=lay(a))
                m.add_node(a[0], a[1:])
            else:
                ctx.call("add_node", net.add_node, a[0])
                m.add_node(a[0])
        elif k == "layer":
            ctx.call("add_layer", net.add_layer, self.layer(op[2], op[3]), op[3])
            m.add_layer(self.layer(op[2], op[3]), op[3])
        elif k == "hold":
            a = mk_nl(op[2], self.node, self.layer)
            self.handles[a] = ctx.call("getitem", lambda: net[idx(a)])


def new_sim(sc, ctx):
    return (mux.MuxSim if sc["kind"] == "mux" else MlSim)(sc, ctx)


def clone(s, net, model):
    t = copy.copy(s)
    t.net, t.m = net, model
    t.handles, t.held, t.iters = {}, {}, {}
    return t


def content(m):
    f = m.flat() if hasattr(m, "flat") else m
    return (frozenset(f.nodes), tuple(frozenset(l) for l in f.layers), frozenset(asnl(x, f.aspects) for x in f.node_layers()), frozenset(f.e.items()))


def verify(ctx, s, what):
    import pymnet
    net, sc = s.net, s.sc
    cls = pymnet.MultiplexNetwork if sc["kind"] == "mux" else pymnet.MultilayerNetwork
    ctx.check(type(net) is cls, "class:" + what, repr(type(net)))
    ctx.check((net.aspects, net.directed, net.fullyInterconnected) == (sc["aspects"], sc["directed"], sc["aligned"] or not sc["aspects"]) and net.noEdge == s.noedge and type(net.noEdge) is type(s.noedge),
              "attributes:" + what, lambda: repr((net.aspects, net.directed, net.fullyInterconnected, net.noEdge)))
    f = s.m.flat() if sc["kind"] == "mux" else s.m
    ctx.check(set(net) == f.nodes and len(list(net)) == len(f.nodes), "nodes:" + what, lambda: "%r, expected %r" % (set(net), f.nodes))
    for a in range(f.aspects):
        got = list(ctx.call("get_layers", net.get_layers, a + 1))
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, f.layers[a])), "layers:" + what, lambda: "%r, expected %r" % (got, f.layers[a]))
    nls = sorted(repr(asnl(x, f.aspects)) for x in ctx.call("iter_node_layers", lambda: list(net.iter_node_layers())))
    ctx.check(nls == sorted(repr(asnl(x, f.aspects)) for x in f.node_layers()), "node-layers:" + what, lambda: repr(nls))
    if sc["kind"] == "mux":
        c03.full(ctx, s)
    else:
        c01.check_full(ctx, net, f)


def compare(ctx, a, b, what):
    import pymnet  # noqa
    x, y = content(a.m), content(b.m)
    if x == y:
        for p, q in ((a, b), (b, a)):
            ctx.check(ctx.call("eq", lambda: p.net == q.net) is True, "unequal:" + what, "networks with the same content compare different")
            ctx.check(ctx.call("ne", lambda: p.net != q.net) is False, "unequal:" + what, "networks with the same content compare different (!=)")
        if getattr(type(a.net), "__hash__", None) is not None:
            ctx.check(ctx.call("hash", hash, a.net) == hash(b.net), "hash:" + what, "equal networks with different hashes")
        ctx.hit("equal_pair")
    elif x[3] != y[3] or x[0] != y[0] or x[1] != y[1]:
        for p, q in ((a, b), (b, a)):
            ctx.check(ctx.call("eq", lambda: p.net == q.net) is False, "equal:" + what, "networks with different content compare equal")
        ctx.hit("unequal_pair")


def fork(ctx, s, h):
    if h == "deep":
        net = ctx.call("deepcopy", copy.deepcopy, s.net)
    else:
        net = ctx.call("unpickle", pickle.loads, ctx.call("pickle", dump, s.net, h))
    return clone(s, net, copy.deepcopy(s.m))


def fork_layer(ctx, s, h, n):
    """One intra-layer network copied on its own."""
    lts = s.m.layer_tuples()
    if not lts:
        return
    l = lts[n % len(lts)]
    A = s.A(l)
    c = ctx.call("deepcopy", copy.deepcopy, A) if h == "deep" else ctx.call("unpickle", pickle.loads, ctx.call("pickle", dump, A, h))
    ctx.check(type(c) is type(A), "class:layer", repr(type(c)))
    ctx.check(set(c) == set(A), "nodes:layer", lambda: "%r, layer has %r" % (set(c), set(A)))
    ctx.check(sorted(map(repr, edge_multiset(ctx, c, 0, s.sc["directed"]))) == sorted(map(repr, edge_multiset(ctx, A, 0, s.sc["directed"]))), "links:layer", "")
    ctx.check(ctx.call("eq", lambda: c == A) is True, "unequal:layer", "a copied layer compares different")
    nodes = sorted(s.m.nodes, key=repr)
    if len(nodes) > 1:
        ctx.call("A.set", c.__setitem__, (nodes[0], nodes[1]), 777)
        ctx.check(c[nodes[0], nodes[1]] == 777, "lost-write:layer", "")
        c[s.node(14), nodes[0]] = 778
    verify(ctx, s, "after-layer-copy")
    ctx.hit("layer_copied")


def run(sc, ctx, sims, ops, durable):
    """Executes ops; returns (sims, durable)."""
    skip = 0
    for n, (mask, op) in enumerate(ops):
        if skip:
            skip -= 1
            continue
        ctx.steps += 1
        k = op[0]
        if k == "fork":
            s = sims[op[1] % len(sims)]
            t = fork(ctx, s, op[2])
            ctx.hit("fork:" + op[2][:1])
            verify(ctx, t, "copy")
            verify(ctx, s, "original")
            compare(ctx, s, t, "copy")
            if len(sims) < 3:
                sims.append(t)
            else:
                sims[2] = t
        elif k == "forkA":
            if sc["kind"] == "mux":
                fork_layer(ctx, sims[op[1] % len(sims)], op[2], op[3])
        elif k == "save":
            s = sims[op[1] % len(sims)]
            durable = (ctx.call("pickle", dump, s.net, op[2]), pickle.dumps((s.m, s.wn)))
        elif k == "crash":
            if durable is None:
                continue
            ctx.fault("crash_" + op[1])
            base = sims[0]
            del sims[:]
            if op[1] == "salt":
                if sc["labels"] in ("sim", "collide", "few"):
                    labels.set_salt(op[2], {"sim": "spread"}.get(sc["labels"], sc["labels"]))
                sims.append(load(ctx, base, durable))
            else:
                cut = []
                for o in ops[n + 1:n + 1 + op[3]]:
                    if o[1][0] == "crash":
                        break
                    cut.append(o)
                b, log, probes = restart.call(1000 + op[2], "checks.c14", "serve", (dict(sc, ops=cut), durable))
                for line in log:
                    ctx.emit("child", line)
                for p, q in probes.items():
                    ctx.hit(p, q)
                skip = len(cut)
                durable = b
                sims.append(load(ctx, base, durable))
            verify(ctx, sims[0], "restored")
        else:
            for i, s in enumerate(sims):
                if mask is None or i in mask:
                    s.step(op)
        ctx.emit(n, k, " ".join(str(len(content(s.m)[3])) for s in sims))
    for i, s in enumerate(sims):
        verify(ctx, s, "end")
        for t in sims[i + 1:]:
            compare(ctx, s, t, "end")
    return sims, durable


def load(ctx, base, durable):
    net = ctx.call("unpickle", pickle.loads, durable[0])
    m, wn = pickle.loads(durable[1])
    t = clone(base, net, m)
    t.ctx, t.wn = ctx, wn
    return t


def serve(payload):
    """In the restarted process."""
    sc, durable = payload
    ctx = Ctx()
    s = load(ctx, new_sim(sc, ctx), durable)
    verify(ctx, s, "restored")
    sims, d = run(sc, ctx, [s], sc["ops"], None)
    return (pickle.dumps(sims[0].net), pickle.dumps((sims[0].m, sims[0].wn))), ctx.log, dict(ctx.probes)


def execute(sc, ctx):
    s = new_sim(sc, ctx)
    sims, d = run(sc, ctx, [s], sc["ops"], None)
    ctx.nontrivial = any(content(t.m)[3] for t in sims) and any(o[1][0] in ("fork", "forkA", "crash") for o in sc["ops"])


def shrink(sc):
    for k, v in (("labels", "int"), ("aligned", True), ("aligned", False), ("directed", False), ("noedge", 0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i, (mask, op) in enumerate(sc["ops"]):
        if mask is not None:
            yield dict(sc, ops=sc["ops"][:i] + [[None, op]] + sc["ops"][i + 1:])
    if sc["kind"] == "mux":
        for a, c in enumerate(sc["couplings"]):
            if c[0] != "none":
                yield dict(sc, couplings=sc["couplings"][:a] + [["none", 1.0]] + sc["couplings"][a + 1:])
