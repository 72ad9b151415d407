"""C02: nodes, layers and node-layers are exactly what was added or linked, on
every way of asking, for both network classes."""
import itertools

from sim import labels
from checks import mux
from checks.common import RefNet, big, lay, link, mk_nl

SHRINK = ("ops",)


def generate(rng, tier):
    if rng.random() < 0.5:
        sc = mux.gen_config(rng)
        sc["cls"] = "mux"
        sc["ops"] = [o for o in mux.gen_ops(rng, sc, rng.randint(3, 24 if tier == "quick" else 60))
                     if o[0] not in ("hold", "iter", "step")]
        return sc
    aspects = rng.choice([0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 3])
    nn = rng.randint(1, 6 if aspects < 3 else 3)
    nlay = rng.randint(1, 4 if aspects < 3 else 2)
    large = big(rng)
    if large:
        nn, nlay = rng.randint(7, 16 if aspects < 2 else 7), rng.randint(1, 8 if aspects < 2 else 3 if aspects < 3 else 2)
    sc = {"cls": "ml", "aspects": aspects, "directed": rng.random() < 0.4, "aligned": rng.random() < 0.4,
          "noedge": rng.choice([0, 0, -1]), "labels": rng.choice(labels.MODES + ("tuplefree",)), "salt": rng.getrandbits(30),
          "nn": nn, "nlay": nlay}
    nl = lambda: [rng.randrange(nn)] + [rng.randrange(nlay) for _ in range(aspects)]
    ops = []
    for _ in range(rng.randint(2, 24 if tier == "quick" else 60) + 30 * large):
        c = rng.randrange(3)
        r = rng.random()
        if r < 0.35:
            form = rng.choice(["plain", "layer", "layer", "list", "aspect0"])
            ops.append(["node", c, nl(), form])
        elif r < 0.5 and aspects:
            ops.append(["layer", c, rng.randrange(nlay), rng.randint(1, aspects)])
        elif r < 0.9:
            a, b = nl(), nl()
            if rng.random() < 0.15:
                b = list(a)
            if rng.random() < 0.3:
                b[1:] = a[1:]
            ops.append(["set", c, rng.choice(["full", "short", "node"]), a, b, rng.choice([1, 2, 0.5])])
        else:
            ops.append(["del", c, rng.randrange(1000)])
    sc["ops"] = ops
    return sc


def check_members(ctx, net, nodes, layers, nls, aligned, intra=None):
    """Every way of asking who is in the network."""
    asp = len(layers)
    def same(name, f, want):
        got = ctx.call(name, lambda: list(f()))
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), name, lambda: "%s gives %r, expected %r" % (name, got, sorted(want, key=repr)))
    n = ctx.call("len", len, net)
    ctx.check(n == len(nodes), "len", lambda: "len(net) is %r, expected %r" % (n, len(nodes)))
    same("iter", lambda: iter(net), nodes)
    same("iter_nodes", net.iter_nodes, nodes)
    same("get_layers0", lambda: net.get_layers(0), nodes)
    for x in nodes:
        ctx.check(x in net, "contains", lambda: "%r is not in the network" % (x,))
    ctx.check("no such node" not in net, "contains", "a node that was never added is in the network")
    for a in range(1, asp + 1):
        same("get_layers", lambda: net.get_layers(a), layers[a - 1])
        same("iter_layers(aspect)", lambda: net.iter_layers(aspect=a), layers[a - 1])
    if asp == 1:
        same("get_layers()", lambda: net.get_layers(), layers[0])
    tuples = list(itertools.product(*layers)) if asp else []
    if asp:
        same("iter_layers", net.iter_layers, [t[0] for t in tuples] if asp == 1 else tuples)
        same("iter_node_layers", net.iter_node_layers, nls)
        for t in tuples:
            want = [x for x in nodes if (x,) + t in nls]
            same("iter_nodes(layer)", lambda: net.iter_nodes(layer=t[0] if asp == 1 else t), want)
            if intra is not None:
                A = ctx.call("A", intra, t)
                same("A.iter", lambda: iter(A), want)
                same("A.iter_nodes", A.iter_nodes, want)
                n = ctx.call("A.len", len, A)
                ctx.check(n == len(want), "A.len", lambda: "len(A[%r]) is %r, expected %r" % (t, n, len(want)))
        if intra is not None:
            same("A.keys", lambda: net.A, [t[0] for t in tuples] if asp == 1 else tuples)


def execute(sc, ctx):
    if sc["cls"] == "mux":
        s = mux.MuxSim(sc, ctx)
        for n, op in enumerate(sc["ops"]):
            ctx.steps += 1
            if s.step(op) is None:
                continue
            m = s.m
            check_members(ctx, s.net, m.nodes, m.layers, m.node_layers(), m.aligned, s.A)
            ctx.emit(n, op[0], str(len(m.nodes)), repr(sorted(m.node_layers(), key=repr)))
        if not m_aligned(sc) and any(not s.m.on(n, t) for n in s.m.nodes for t in s.m.layer_tuples()):
            ctx.hit("node_missing_from_a_layer")
        # an added node-layer makes a difference, adding again makes none
        other = __import__("checks.c03", fromlist=["rebuild"]).rebuild(s)
        equal(sc, ctx, s.net, other, s.m.nodes, s.m.layers, s.m.node_layers(), s.m.aligned)
        ctx.nontrivial = len(s.m.nodes) > 1 and len(sc["ops"]) > 3
        return
    import pymnet
    asp = sc["aspects"]
    node, layer = labels.make(sc["labels"], sc["salt"])
    net = pymnet.MultilayerNetwork(aspects=asp, noEdge=sc["noedge"], directed=sc["directed"], fullyInterconnected=sc["aligned"])
    m = RefNet(asp, sc["directed"], sc["aligned"], sc["noedge"])
    for n, op in enumerate(sc["ops"]):
        ctx.steps += 1
        if op[0] == "node":
            a = mk_nl(op[2], node, layer)
            form = op[3]
            if form == "plain" or not asp:
                ctx.call("add_node", net.add_node, a[0])
                m.add_node(a[0])
            elif form == "aspect0":
                ctx.call("add_layer0", net.add_layer, a[0], 0)
                m.add_node(a[0])
            else:
                l = lay(a)
                ctx.call("add_node", net.add_node, a[0], layer=list(l) if form == "list" and asp > 1 else l)
                m.add_node(a[0], a[1:])
        elif op[0] == "layer":
            ctx.call("add_layer", net.add_layer, layer(op[2], op[3]), op[3])
            m.add_layer(layer(op[2], op[3]), op[3])
        elif op[0] == "set":
            a, b = mk_nl(op[3], node, layer), mk_nl(op[4], node, layer)
            def write():
                if op[2] == "short" and a[1:] == b[1:]:
                    net[(a[0], b[0]) + a[1:]] = op[5]
                elif op[2] == "node":
                    net[a if asp else a[0]][b if asp else b[0]] = op[5]
                else:
                    net[link(a, b)] = op[5]
            ctx.call("set", write)
            m.set(a, b, op[5])
        elif op[0] == "del":
            es = sorted(m.e, key=repr)
            if not es:
                continue
            a, b = es[op[2] % len(es)]
            ctx.call("del", net.__setitem__, link(a, b), sc["noedge"])
            m.set(a, b, sc["noedge"])
        check_members(ctx, net, m.nodes, m.layers, m.node_layers(), m.aligned)
        ctx.emit(n, op[0], repr(sorted(m.nodes, key=repr)), repr(sorted(m.node_layers(), key=repr)))
    if not m.aligned and any(x not in m.nls for x in m.universe()):
        ctx.hit("node_missing_from_a_layer")
    other = __import__("checks.c01", fromlist=["rebuild"]).rebuild(pymnet, m, sc)
    equal(sc, ctx, net, other, m.nodes, m.layers, m.node_layers(), m.aligned)
    ctx.nontrivial = len(m.nodes) > 1 and len(sc["ops"]) > 3


def m_aligned(sc):
    return sc["aligned"]


def equal(sc, ctx, net, other, nodes, layers, nls, aligned):
    asp = len(layers)
    ctx.check(ctx.call("eq", lambda: net == other) is True, "equality-history", "a network with the same members compares different")
    for x in sorted(nodes, key=repr):
        other.add_node(x)
    for nl in sorted(nls, key=repr):
        if asp:
            other.add_node(nl[0], layer=lay(nl))
    for a in range(asp):
        for l in sorted(layers[a], key=repr):
            other.add_layer(l, a + 1)
    ctx.check(ctx.call("eq", lambda: net == other) is True, "adding-again", "adding members again made a difference")
    missing = [(x,) + t for x in nodes for t in itertools.product(*layers) if (x,) + t not in nls]
    if missing and not aligned and asp:
        nl = sorted(missing, key=repr)[sc["salt"] % len(missing)]
        other.add_node(nl[0], layer=lay(nl))
        ctx.check(ctx.call("eq", lambda: net == other) is False, "equality-node-layer", "an additional node-layer compares equal")
        ctx.check(ctx.call("eq", lambda: other == net) is False, "equality-node-layer", "an additional node-layer compares equal")
        ctx.hit("equality_of_node_layers")
    else:
        other.add_node("zz-extra")
        ctx.check(ctx.call("eq", lambda: net == other) is False, "equality-node", "an additional node compares equal")
        ctx.check(ctx.call("eq", lambda: other == net) is False, "equality-node", "an additional node compares equal")


def shrink(sc):
    if sc["cls"] == "mux":
        for c in mux.shrink_config(sc):
            yield c
        return
    for k, v in (("labels", "int"), ("aligned", True), ("directed", False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
