"""Random network generators as data: what is called, with which arguments, and
what every result has to satisfy whatever the random stream."""
import math

from sim import labels
from checks.c05 import flat, model_of
from checks import nets

COUPLINGS = [["categorical", 1.0], ["categorical", 2.5], ["ordinal", 1.0], ["none"]]


def rnd_edges(rng, n, p):
    return [[i, j] for i in range(n) for j in range(i + 1, n) if rng.random() < p]


def degs_of(n, edges):
    d = [0] * n
    for i, j in edges:
        d[i] += 1
        d[j] += 1
    return d


def hist(ds):
    h = {}
    for d in ds:
        h[d] = h.get(d, 0) + 1
    return h


# ------------------------------------------------------------ configuration

def gen_conf(rng, tier):
    f = rng.choice(["single", "single_A", "conf_mono", "conf_dict", "conf_dict", "conf_list", "conf_list", "conf_net", "conf_muxnet", "conf_muxnet", "overlaps", "overlaps", "overlaps"])
    n = rng.randint(6, 16 if tier == "quick" else 30)
    g = {"f": f, "n": n, "labels": rng.choice(labels.MODES), "salt": rng.getrandbits(30), "degstype": rng.choice(["nodes", "distribution"])}
    n = min(n, 16) if g["labels"] != "int" else n
    g["n"] = n
    L = 1 if f in ("single", "single_A", "conf_mono", "conf_net") else rng.randint(1, 3)
    g["couplings"] = rng.choice(COUPLINGS)
    dens = lambda: rng.choice([0.0, 0.1, 0.15, 0.2, 0.25])
    if f == "overlaps":
        # an existing multiplex network decides the overlap degrees
        lay = [rnd_edges(rng, n, rng.choice([0.1, 0.15, 0.2])) for _ in range(L)]
        for k in range(1, L):
            for e in lay[0]:
                if rng.random() < 0.4 and e not in lay[k]:
                    lay[k].append(e)
        combos = {}
        for e in sorted(set(tuple(e) for l in lay for e in l)):
            c = tuple(k for k in range(L) if list(e) in lay[k])
            combos.setdefault(c, []).append(list(e))
        import itertools
        allc = [c for r in range(1, L + 1) for c in itertools.combinations(range(L), r)]
        if rng.random() < 0.5:
            allc = [c for c in allc if c in combos] or [(0,)]
        rng.shuffle(allc)
        g["combos"] = []
        for c in allc:
            ds = degs_of(n, combos.get(c, []))
            skip = rng.random() < 0.2   # nodes of degree zero may be left out
            order = list(range(n))
            rng.shuffle(order)
            lc = list(c)
            rng.shuffle(lc)
            g["combos"].append([lc, [[i, ds[i]] for i in order if ds[i] or not skip]])
        return g
    aligned = rng.random() < 0.5 or L == 1
    g["layers"] = []
    for l in range(L):
        m = n if aligned else rng.randint(0 if rng.random() < 0.2 else 4, n)
        off = 0 if aligned else rng.randint(0, n - m)
        ds = degs_of(m, rnd_edges(rng, m, dens() if m > 5 else 0.3))
        order = list(range(m))
        rng.shuffle(order)
        g["layers"].append([[i + off, ds[i]] for i in order])
    if f in ("conf_net", "conf_muxnet"):
        g["layers"] = [[[i, 0] for i in range(n)] for _ in range(L)]
        g["edges"] = [rnd_edges(rng, n, dens()) for _ in range(L)]
        g["aligned"] = aligned
        if not aligned:
            g["present"] = [[i for i in range(n) if rng.random() < 0.8] for _ in range(L)]
            g["edges"] = [[e for e in es if e[0] in pr and e[1] in pr] for es, pr in zip(g["edges"], g["present"])]
        g["src"] = rng.choice([1, 1, 2, 0.5])
    # conf() takes an empty dict of dicts or an empty first dict for something else
    if f == "conf_mono" and not g["layers"][0]:
        g["layers"][0] = [[0, 0]]
    return g


def node_layer(g):
    node, layer = labels.make(g["labels"], g["salt"])
    if g["n"] > 16:
        node, layer = (lambda i: i), (lambda i, a=1: i)
    if g["f"] == "conf_list" or g["couplings"][0] == "ordinal":
        layer = lambda i, a=1: i
    return node, layer


def degdict(g, l, node):
    if g["degstype"] == "nodes":
        return dict((node(i), d) for i, d in l)
    return hist(d for i, d in l)


def make_conf(P, g):
    """Returns (call, check(ctx, net), sources) where sources must not change."""
    from pymnet import models as M
    f = g["f"]
    node, layer = node_layer(g)
    cp = "none" if g["couplings"][0] == "none" else tuple(g["couplings"])
    if f == "overlaps":
        arg = dict((tuple(layer(x) for x in c), dict((node(i), d) for i, d in ds)) for c, ds in g["combos"])
        kw = {} if g["couplings"][1:] == [2.5] else {"couplings": [cp]}
        return (lambda: M.conf_overlaps(arg, **kw)), (lambda ctx, net: check_overlaps(ctx, P, net, arg)), [arg]
    if f == "single":
        arg = degdict(g, g["layers"][0], node)

        def call():
            net = P.MultilayerNetwork(aspects=0)
            M.single_layer_conf(net, arg, degstype=g["degstype"])
            return net
        return call, (lambda ctx, net: check_layers(ctx, P, net, [(None, arg)], g["degstype"], None)), [arg]
    if f == "single_A":
        arg = degdict(g, g["layers"][0], node)
        l = layer(0)

        def call():
            net = P.MultiplexNetwork(couplings=[cp])
            net.add_layer(l)
            M.single_layer_conf(net.A[l], arg, degstype=g["degstype"])
            return net
        return call, (lambda ctx, net: check_layers(ctx, P, net, [(l, arg)], g["degstype"], True)), [arg]
    if f == "conf_mono":
        arg = degdict(g, g["layers"][0], node)
        return (lambda: M.conf(arg, degstype=g["degstype"])), (lambda ctx, net: check_layers(ctx, P, net, [(None, arg)], g["degstype"], None)), [arg]
    if f in ("conf_dict", "conf_list"):
        ds = [degdict(g, l, node) for l in g["layers"]]
        sizes = [set(d) if g["degstype"] == "nodes" else sum(d.values()) for d in ds]
        aligned = all(s == sizes[0] for s in sizes)
        if f == "conf_list":
            arg, want = ds, list(enumerate(ds))
        else:
            arg = dict((layer(k), d) for k, d in enumerate(ds))
            want = list(arg.items())
        return (lambda: M.conf(arg, degstype=g["degstype"], couplings=cp)), (lambda ctx, net: check_layers(ctx, P, net, want, g["degstype"], aligned)), [arg]
    if f == "conf_net":
        net = P.MultilayerNetwork(aspects=0)
        for i in range(g["n"]):
            net.add_node(node(i))
        for i, j in g["edges"][0]:
            net[node(i), node(j)] = g["src"]
        want = [(None, dict((node(i), d) for i, d in enumerate(degs_of(g["n"], g["edges"][0]))))]
        return (lambda: M.conf(net)), (lambda ctx, r: check_layers(ctx, P, r, want, "nodes", None)), [net]
    net = P.MultiplexNetwork(couplings=[cp], fullyInterconnected=g["aligned"])
    want = []
    for k, es in enumerate(g["edges"]):
        l = layer(k)
        net.add_layer(l)
        on = range(g["n"]) if g["aligned"] else g["present"][k]
        for i in on:
            net.A[l].add_node(node(i))
        for i, j in es:
            net[node(i), node(j), l] = g["src"]
        d = degs_of(g["n"], es)
        want.append((l, dict((node(i), d[i]) for i in on)))
    aligned = all(set(d) == set(want[0][1]) for l, d in want)
    return (lambda: M.conf(net)), (lambda ctx, r: check_layers(ctx, P, r, want, "nodes", aligned)), [net]


def layer_edges(ctx, A):
    """{node: set of neighbours} and checks of simplicity."""
    adj = dict((n, set()) for n in A)
    seen = set()
    for e in A.edges:
        a, b, w = e
        ctx.check(a != b, "self-link", lambda: "self-link at %r" % (a,))
        ctx.check(w == 1, "weight", lambda: "link %r has weight %r" % (e, w))
        k = frozenset((a, b))
        ctx.check(k not in seen, "double-link", lambda: "link %r twice" % (e,))
        seen.add(k)
        adj[a].add(b)
        adj[b].add(a)
        ctx.check(A[a, b] == 1 and A[b, a] == 1, "lookup", lambda: "link %r reads %r" % (e, A[a, b]))
    for n in adj:
        ctx.check(A[n].deg() == len(adj[n]), "deg", lambda: "%r: deg() %r, neighbours %r" % (n, A[n].deg(), adj[n]))
        ctx.check(A[n, n] == 0, "self-link", lambda: "self-link at %r" % (n,))
    return adj


def check_layers(ctx, P, net, want, degstype, aligned):
    if aligned is None:
        ctx.check(isinstance(net, P.MultilayerNetwork) and net.aspects == 0 and not net.directed, "class", repr(type(net)))
        As = [(net, want[0][1])]
        allnodes = set(net)
    else:
        ctx.check(isinstance(net, P.MultiplexNetwork) and net.aspects == 1 and not net.directed, "class", repr(type(net)))
        ctx.check(bool(net.fullyInterconnected) == aligned, "alignment", "fullyInterconnected is %r" % (net.fullyInterconnected,))
        ctx.check(sorted(map(repr, net.get_layers(1))) == sorted(repr(l) for l, d in want), "layers", lambda: "layers %r" % (sorted(net.get_layers(1), key=repr),))
        As = [(net.A[l], d) for l, d in want]
        allnodes = set()
        total = sum(len(A.edges) for A, d in As)
        intra = sum(1 for e in net.edges if e[2] == e[3])
        ctx.check(total == intra, "edge-count", "%d intra-layer links, layers hold %d" % (intra, total))
    for A, d in As:
        adj = layer_edges(ctx, A)
        allnodes |= set(adj)
        if degstype == "nodes":
            ctx.check(set(adj) == set(d), "nodes", lambda: "nodes %r, requested %r" % (sorted(map(repr, adj)), sorted(map(repr, d))))
            for n in d:
                ctx.check(len(adj[n]) == d[n], "degree", lambda: "node %r has degree %d, requested %d" % (n, len(adj[n]), d[n]))
        else:
            ctx.check(set(adj) == set(range(sum(d.values()))), "nodes", lambda: "nodes %r" % (sorted(adj, key=repr),))
            got = hist(len(v) for v in adj.values())
            ctx.check(got == dict((k, v) for k, v in d.items() if v), "degree", lambda: "degree distribution %r, requested %r" % (got, d))
        ctx.hit("links", sum(len(v) for v in adj.values()) // 2)
    ctx.check(set(net) == allnodes, "nodes", lambda: "network nodes %r, on layers %r" % (sorted(map(repr, net)), sorted(map(repr, allnodes))))


def check_overlaps(ctx, P, net, ol):
    ctx.check(isinstance(net, P.MultiplexNetwork) and not net.directed and net.fullyInterconnected, "class", repr(type(net)))
    layers = set(l for c in ol for l in c)
    nodes = set(n for d in ol.values() for n in d)
    ctx.check(set(net.get_layers(1)) == layers, "layers", lambda: "layers %r, requested %r" % (set(net.get_layers(1)), layers))
    ctx.check(set(net) == nodes, "nodes", lambda: "nodes %r, requested %r" % (set(net), nodes))
    on = {}
    for l in layers:
        adj = layer_edges(ctx, net.A[l])
        for a in adj:
            for b in adj[a]:
                on.setdefault(frozenset((a, b)), set()).add(l)
    byc = dict((frozenset(c), {}) for c in ol)
    for k, ls in on.items():
        fs = frozenset(ls)
        ctx.check(fs in byc, "combination", lambda: "link %r on layers %r, which is no requested combination" % (set(k), ls))
        for n in k:
            byc[fs][n] = byc[fs].get(n, 0) + 1
    for c, d in ol.items():
        for n in nodes:
            got = byc[frozenset(c)].get(n, 0)
            ctx.check(got == d.get(n, 0), "overlap-degree", lambda: "node %r on combination %r: %d, requested %d" % (n, c, got, d.get(n, 0)))
    ctx.hit("links", len(on))


def gen_easy_conf(rng, tier):
    """Sparse degrees over enough nodes: with a fair stream the repairs end soon."""
    while True:
        f = rng.choice(["single", "single_A", "conf_mono", "conf_dict", "conf_list", "conf_net", "conf_muxnet", "overlaps", "overlaps", "overlaps"])
        n = rng.randint(24, 40)
        L = 1 if f in ("single", "single_A", "conf_mono", "conf_net") else rng.randint(1, 3)
        g = {"f": f, "n": n, "labels": "int", "salt": 0, "degstype": rng.choice(["nodes", "distribution"]), "couplings": rng.choice(COUPLINGS)}
        es = [rnd_edges(rng, n, rng.choice([0.05, 0.07, 0.09])) for _ in range(L)]
        if min(map(len, es)) < 14:
            continue
        if f == "overlaps":
            import itertools
            cs = [c for r in (1, 2) for c in itertools.combinations(range(L), r)]
            g["combos"] = [[list(c), [[i, d] for i, d in enumerate(degs_of(n, e))]] for c, e in zip(rng.sample(cs, min(L, len(cs))), es)]
        elif f in ("conf_net", "conf_muxnet"):
            g.update(layers=[[[i, 0] for i in range(n)] for _ in es], edges=es, aligned=True, src=1)
        else:
            g["layers"] = [[[i, d] for i, d in enumerate(degs_of(n, e))] for e in es]
        return g


def gen_easy_model(rng, tier):
    """Rejection loops that find what they look for at least every third time."""
    while True:
        g = gen_model(rng, tier, rng.choice(["overlap_agg", "overlap_agg", "ba", "er_p", "er_m", "ws", "geo"]))
        if g["f"] == "overlap_agg":
            ends = sum(k * len(c) for c, k in g["combos"] if len(c) > 1) + g["m"] * g["L"]
            if 3 * ends > g["n"] * (g["n"] - 1):
                continue
        return g


# ------------------------------------------------------------ other models

MODELS = ["ser_p", "ser_m", "er_p", "er_p", "er_m", "er_m", "er_lists", "er_lists", "er_part", "full", "full_ml", "er_ml", "er_ml", "er_ml_part", "er_ml_part",
          "overlap_agg", "overlap_agg", "ba", "ba", "ba", "ws", "ws", "geo", "randomize", "randomize"]
PS = [0.0, 1.0, 1e-12, 1e-3, 0.1, 0.3, 0.5, 0.9, 1.0 - 1e-9, 0.999999999999]


def gen_model(rng, tier, f=None):
    f = f or rng.choice(MODELS)
    big = rng.random() < (0.05 if tier == "quick" else 0.1)
    n = rng.randint(0, 9) if not big else rng.randint(20, 60)
    L = rng.randint(1, 3)
    g = {"f": f, "n": n, "labels": rng.choice(labels.MODES) if n <= 16 else "int", "salt": rng.getrandbits(30), "L": L,
         "couplings": rng.choice(COUPLINGS)}
    mx = n * (n - 1) // 2
    if f in ("ser_p", "ser_m"):
        g["order"] = list(range(n))
        rng.shuffle(g["order"])
        g["p"] = rng.choice(PS)
        g["m"] = rng.choice([0, mx, rng.randint(0, mx)])
        g["into"] = rng.choice(["mono", "A", "A_part"])
    elif f == "er_p":
        g["p"] = [rng.choice(PS) for _ in range(L)] if rng.random() < 0.7 else rng.choice(PS)
    elif f == "er_m":
        g["m"] = [rng.choice([0, mx, rng.randint(0, mx)]) for _ in range(L)] if rng.random() < 0.7 else rng.randint(0, mx)
    elif f in ("er_lists", "er_part", "er_ml_part"):
        n = g["n"] = min(max(n, 1), 16)
        g["lists"] = []
        for _ in range(L):
            l = [i for i in range(n) if rng.random() < 0.7]
            rng.shuffle(l)
            g["lists"].append(l)
        sizes = [len(l) * (len(l) - 1) // 2 for l in g["lists"]]
        g["by"] = rng.choice(["p", "ps", "m", "ms"])
        g["ps"] = [rng.choice(PS) for _ in range(L)]
        g["ms"] = [rng.choice([0, s, rng.randint(0, s)]) for s in sizes]
        g["m"] = min(sizes)
        g["p"] = rng.choice(PS)
        if f == "er_ml_part":
            g["seed"] = rng.choice([None, rng.randint(0, 99), "s%d" % rng.randint(0, 9)])
            g["iters"] = rng.random() < 0.3
    elif f in ("full", "full_ml"):
        g["n"] = min(n, 8)
        g["form"] = rng.choice(["count", "names", "none"])
    elif f == "er_ml":
        g["n"] = min(n, 12)
        g["p"] = rng.choice(PS)
        g["w"] = rng.random() < 0.5
        g["form"] = rng.choice(["count", "names"])
    elif f == "overlap_agg":
        n = g["n"] = rng.randint(2, 12)
        mx = n * (n - 1) // 2
        g["m"] = rng.randint(0, max(0, mx // L if rng.random() < 0.3 else mx // (2 * L)))
        import itertools
        combos = [c for r in range(2, L + 1) for c in itertools.combinations(range(L), r)]
        rng.shuffle(combos)
        left = [g["m"]] * L
        g["combos"] = []
        for c in combos:
            k = rng.randint(0, min(left[l] for l in c))
            if rng.random() < 0.7:
                for l in c:
                    left[l] -= k
                cc = list(c)
                rng.shuffle(cc)
                g["combos"].append([cc, k])
        for l in range(L):
            if rng.random() < 0.3 or not any(l in c for c, k in g["combos"]):
                g["combos"].append([[l], rng.choice([0, 1, 5])])
        rng.shuffle(g["combos"])
    elif f == "ba":
        g["n"] = rng.randint(1, 12) if not big else 40
        g["ms"] = [rng.choice([0, 1, 1, 2, 2, 3, 4]) for _ in range(L)]
    elif f == "ws":
        n = g["n"] = rng.randint(3, 12)
        g["ms"] = [rng.randint(0, n * (n - 2) // 2) for _ in range(L)]
        g["p"] = rng.choice([0.0, 0.3, 1.0])
        g["dflt"] = rng.random() < 0.3
    elif f == "geo":
        n = g["n"] = rng.randint(2, 15)
        g["ms"] = [rng.choice([0, rng.randint(0, n * 3)]) for _ in range(L)]
    elif f == "randomize":
        g["net"] = dict(nets.gen(rng, "mux1", nn=rng.randint(2, 5), nlay=L), labels=g["labels"], salt=g["salt"])
    return g


def adj_of(ctx, A, weights=None, selfok=False):
    adj = dict((n, {}) for n in A)
    for e in A.edges:
        a, b, w = e
        ctx.check(a != b or selfok, "self-link", lambda: "self-link %r" % (e,))
        ctx.check(b not in adj[a], "double-link", lambda: "%r twice" % (e,))
        ctx.check(w == 1 if weights is None else weights(w), "weight", lambda: "%r" % (e,))
        adj[a][b] = w
        adj[b][a] = w
    return adj


def nlinks(adj):
    return sum(len(v) for v in adj.values()) // 2


def expect(ctx, P, net, mux, nodes, layers, couplings=None, aligned=True):
    """Class, nodes, layers, alignment and the coupling links."""
    ctx.check(type(net) is (P.MultiplexNetwork if mux else P.MultilayerNetwork) and not net.directed, "class", repr(type(net)))
    ctx.check(net.aspects == (0 if layers is None else 1), "aspects", net.aspects)
    ctx.check(set(net) == set(nodes), "nodes", lambda: "nodes %r, requested %r" % (sorted(map(repr, net)), sorted(map(repr, nodes))))
    if layers is not None:
        ctx.check(set(net.get_layers(1)) == set(layers), "layers", lambda: "layers %r, requested %r" % (sorted(map(repr, net.get_layers(1))), sorted(map(repr, layers))))
        ctx.check(bool(net.fullyInterconnected) == aligned, "alignment", net.fullyInterconnected)
    if mux:
        for n in nodes:
            for a in layers:
                for b in layers:
                    if a == b or (not aligned and not (n in net.A[a] and n in net.A[b])):
                        continue
                    w = 0
                    if couplings and couplings[0] == "categorical":
                        w = couplings[1]
                    elif couplings and couplings[0] == "ordinal" and abs(a - b) == 1:
                        w = couplings[1]
                    ctx.check(net[n, n, a, b] == w, "coupling", lambda: "coupling of %r between %r and %r is %r, requested %r" % (n, a, b, net[n, n, a, b], w))


def prob(ctx, adj, p, total=None):
    n = len(adj)
    t = n * (n - 1) // 2 if total is None else total
    if p == 1.0:
        ctx.check(nlinks(adj) == t, "complete", lambda: "%d of %d links at probability one" % (nlinks(adj), t))
    if p == 0.0:
        ctx.check(nlinks(adj) == 0, "empty", lambda: "%d links at probability zero" % nlinks(adj))


def cpl(g):
    return "none" if g["couplings"][0] == "none" else tuple(g["couplings"])


def make_model(P, g):
    """Returns (call, check(ctx, result), sources)."""
    from pymnet import models as M
    from pymnet import transforms as T
    from pymnet.sampling import creators as C
    f, n, L = g["f"], g["n"], g["L"]
    node, layer = labels.make(g["labels"], g["salt"])
    if n > 16:
        node = lambda i: i
    if g["couplings"][0] == "ordinal":
        layer = lambda i, a=1: i
    cp = cpl(g)
    if f in ("ser_p", "ser_m"):
        nodes = [node(i) for i in g["order"]]
        kw = {"p": g["p"]} if f == "ser_p" else {"edges": g["m"]}
        l = layer(0)

        def call():
            if g["into"] == "mono":
                net = A = P.MultilayerNetwork(aspects=0)
            else:
                net = P.MultiplexNetwork(couplings=[cp], fullyInterconnected=g["into"] == "A")
                net.add_layer(l)
                A = net.A[l]
            M.single_layer_er(A, nodes, **kw)
            return net

        def chk(ctx, net):
            expect(ctx, P, net, g["into"] != "mono", nodes, None if g["into"] == "mono" else [l], g["couplings"], g["into"] != "A_part")
            A = net if g["into"] == "mono" else net.A[l]
            adj = adj_of(ctx, A)
            ctx.check(set(adj) == set(nodes), "nodes", repr(set(adj)))
            if f == "ser_p":
                prob(ctx, adj, g["p"])
            else:
                ctx.check(nlinks(adj) == g["m"], "edge-count", "%d links, requested %d" % (nlinks(adj), g["m"]))
        return call, chk, [nodes]
    if f in ("er_p", "er_m"):
        key = "p" if f == "er_p" else "edges"
        v = g["p"] if f == "er_p" else g["m"]

        def chk(ctx, net):
            multi = isinstance(v, list)
            expect(ctx, P, net, multi, range(n), range(len(v)) if multi else None, ["categorical", 1.0])
            for l, x in enumerate(v if multi else [v]):
                adj = adj_of(ctx, net.A[l] if multi else net)
                ctx.check(set(adj) == set(range(n)), "nodes", repr(set(adj)))
                if f == "er_p":
                    prob(ctx, adj, x)
                else:
                    ctx.check(nlinks(adj) == x, "edge-count", "%d links on layer %d, requested %d" % (nlinks(adj), l, x))
        arg = {key: list(v) if isinstance(v, list) else v}
        return (lambda: M.er(n, **arg)), chk, [arg]
    if f in ("er_lists", "er_part"):
        lists = [[node(i) for i in l] for l in g["lists"]]
        allnodes = set(x for l in lists for x in l)
        if f == "er_part":
            ps = list(g["ps"])
            call = lambda: M.er_partially_interconnected(lists, ps, couplings=cp)
            cps, by = g["couplings"], "ps"
        else:
            by = g["by"]
            kw = {"p": {"p": g["p"]}, "ps": {"p": list(g["ps"])}, "m": {"edges": g["m"]}, "ms": {"edges": list(g["ms"])}}[by]
            call = lambda: M.er(lists, **kw)
            cps = ["categorical", 1.0]

        def chk(ctx, net):
            expect(ctx, P, net, True, allnodes, range(L), cps, False)
            for k, l in enumerate(lists):
                adj = adj_of(ctx, net.A[k])
                ctx.check(set(adj) == set(l), "nodes", lambda: "layer %d has %r, requested %r" % (k, set(adj), l))
                if by in ("p", "ps"):
                    prob(ctx, adj, g["p"] if by == "p" else g["ps"][k])
                else:
                    want = g["m"] if by == "m" else g["ms"][k]
                    ctx.check(nlinks(adj) == want, "edge-count", "%d links on layer %d, requested %d" % (nlinks(adj), k, want))
        return call, chk, [lists]
    if f == "er_ml_part":
        lists = [[node(i) for i in l] for l in g["lists"]]
        nls = set((x, k) for k, l in enumerate(lists) for x in l)

        def call():
            arg = (iter(l) for l in lists) if g["iters"] else lists
            return C.er_multilayer_partially_interconnected(arg, g["p"], seed=g["seed"])

        def chk(ctx, net):
            expect(ctx, P, net, False, set(x for x, k in nls), range(L), None, False)
            ctx.check(set(net.iter_node_layers()) == nls, "node-layers", lambda: repr(set(net.iter_node_layers()) ^ nls))
            adj = dict((x, {}) for x in nls)
            for e in net.edges:
                a, b = (e[0], e[2]), (e[1], e[3])
                ctx.check(a != b and b not in adj[a] and e[4] == 1, "links", repr(e))
                adj[a][b] = adj[b][a] = 1
            prob(ctx, adj, g["p"])
        return call, chk, [lists]
    if f == "full":
        form = g["form"]
        ls = None if form == "none" else (list(range(L)) if form == "count" else [layer(i) for i in range(L)])
        kw = {} if g["couplings"] == ["categorical", 1.0] else {"couplings": cp}

        def chk(ctx, net):
            expect(ctx, P, net, ls is not None, range(n), ls, g["couplings"])
            for l in (ls or [None]):
                adj = adj_of(ctx, net if l is None else net.A[l])
                ctx.check(len(adj) == n, "nodes", repr(set(adj)))
                prob(ctx, adj, 1.0)
        return (lambda: M.full(n, None if ls is None else (L if form == "count" else ls), **kw)), chk, [ls]
    if f in ("full_ml", "er_ml"):
        ls = list(range(L)) if g["form"] != "names" else [layer(i) for i in range(L)]
        arg = L if g["form"] != "names" else ls

        def chk(ctx, net):
            expect(ctx, P, net, False, range(n), ls, None)
            adj = dict(((x, l), {}) for x in range(n) for l in ls)
            for e in net.edges:
                a, b = (e[0], e[2]), (e[1], e[3])
                ctx.check(a != b and b not in adj[a], "links", repr(e))
                ctx.check((0 < e[4] <= 1) if g.get("w") else e[4] == 1, "weight", repr(e))
                ctx.check(f == "full_ml" or a[0] != b[0], "links", repr(e))
                adj[a][b] = adj[b][a] = 1
            if f == "full_ml":
                prob(ctx, adj, 1.0)
            else:
                prob(ctx, adj, g["p"], n * (n - 1) // 2 * L * L)
        if f == "full_ml":
            return (lambda: M.full_multilayer(n, arg)), chk, [ls]
        return (lambda: M.er_multilayer(n, arg, g["p"], randomWeights=g["w"])), chk, [ls]
    if f == "overlap_agg":
        ps = dict((tuple(layer(x) for x in c), (float(k) / g["m"] if g["m"] else 0.0)) for c, k in g["combos"])
        kw = {} if g["couplings"][0] == "none" else {"couplings": [cp]}
        cps = g["couplings"]

        def chk(ctx, net):
            ls = set(layer(x) for c, k in g["combos"] for x in c)
            expect(ctx, P, net, True, range(n), ls, cps)
            on = {}
            for l in ls:
                adj = adj_of(ctx, net.A[l])
                for a in adj:
                    for b in adj[a]:
                        on.setdefault(frozenset((a, b)), set()).add(l)
            cnt = {}
            for k, s in on.items():
                cnt[frozenset(s)] = cnt.get(frozenset(s), 0) + 1
            want = dict((frozenset([l]), g["m"]) for l in ls)
            for c, k in g["combos"]:
                m = k if g["m"] else 0
                if len(c) > 1:
                    for x in c:
                        want[frozenset([layer(x)])] -= m
                    want[frozenset(layer(x) for x in c)] = m * len(c)
            want = dict((k, v) for k, v in want.items() if v)
            ctx.check(cnt == want, "overlaps", lambda: "links per exact layer combination %r, specified %r" % (cnt, want))
            ctx.check(len(on) == g["m"] * len(ls), "aggregated", "%d links in the aggregated network" % len(on))
        return (lambda: M.er_overlaps_match_aggregated(n, g["m"], ps, **kw)), chk, [ps]
    if f == "ba":
        ms = list(g["ms"])
        kw = {} if g["couplings"][0] == "none" else {"couplings": [cp]}

        def chk(ctx, net):
            expect(ctx, P, net, True, range(n), range(L), g["couplings"])
            for l, m in enumerate(g["ms"]):
                adj = adj_of(ctx, net.A[l])
                ctx.check(set(adj) == set(range(n)), "nodes", repr(set(adj)))
                for i in range(n):
                    early = [j for j in adj[i] if j < i]
                    want = m if i >= m else 0
                    ctx.check(len(early) == want, "arrival", lambda: "node %d came with %d links on layer %d, m=%d" % (i, len(early), l, m))
        return (lambda: M.ba_total_degree(n, ms, **kw)), chk, [ms]
    if f == "ws":
        ms = list(g["ms"])
        kw = {} if g["couplings"][0] == "none" else {"couplings": [cp]}
        if not g["dflt"]:
            kw["p"] = g["p"]

        def chk(ctx, net):
            expect(ctx, P, net, True, range(n), range(L), g["couplings"])
            for l, m in enumerate(g["ms"]):
                adj = adj_of(ctx, net.A[l])
                k = int(math.ceil(2 * m / float(n)))
                ctx.check(set(adj) == set(range(n)), "nodes", repr(set(adj)))
                ctx.check(nlinks(adj) == n * (k // 2), "edge-count", "%d links on layer %d, model has %d" % (nlinks(adj), l, n * (k // 2)))
                if not g["dflt"] and g["p"] == 0.0:
                    for i in range(n):
                        ring = set((i + d) % n for j in range(1, k // 2 + 1) for d in (j, -j))
                        ctx.check(set(adj[i]) == ring, "ring", lambda: "%r has %r" % (i, set(adj[i])))
        return (lambda: M.ws(n, ms, **kw)), chk, [ms]
    if f == "geo":
        ms = list(g["ms"])
        kw = {} if g["couplings"][0] == "none" else {"couplings": [cp]}

        def chk(ctx, net):
            expect(ctx, P, net, True, range(n), range(L), g["couplings"])
            for l, m in enumerate(g["ms"]):
                adj = adj_of(ctx, net.A[l])
                ctx.check(set(adj) == set(range(n)), "nodes", repr(set(adj)))
        return (lambda: M.geo(n, ms, **kw)), chk, [ms]
    # randomize
    src = nets.build(P, g["net"])

    def chk(ctx, net):
        ctx.check(type(net) is P.MultiplexNetwork and net.aspects == 1 and net.directed == src.directed, "class", repr(type(net)))
        ctx.check(net.fullyInterconnected == src.fullyInterconnected, "alignment", net.fullyInterconnected)
        ctx.check(set(net.get_layers(1)) == set(src.get_layers(1)), "layers", repr(set(net.get_layers(1))))
        ctx.check(set(net.iter_node_layers()) == set(src.iter_node_layers()), "node-layers", lambda: repr(set(net.iter_node_layers()) ^ set(src.iter_node_layers())))
        ctx.check(repr(net.couplings[0]) == repr(src.couplings[0]) or net.couplings[0][0] is src.couplings[0][0], "coupling", repr(net.couplings))
        for l in src.get_layers(1):
            ctx.check(iso(src.A[l], net.A[l]), "isomorphic", lambda: "layer %r: %r became %r" % (l, sorted(map(repr, src.A[l].edges)), sorted(map(repr, net.A[l].edges))))
    return (lambda: T.randomize_nodes_by_layer(src)), chk, [src]


def iso(A, B):
    """Is there a weight-preserving bijection (networks of a few nodes)?"""
    import itertools
    na, nb = sorted(A, key=repr), sorted(B, key=repr)
    if len(na) != len(nb):
        return False
    wa = dict(((a, b), A[a, b]) for a in na for b in na if a != b)
    wb = dict(((a, b), B[a, b]) for a in nb for b in nb if a != b)
    if sorted(wa.values()) != sorted(wb.values()):
        return False
    for p in itertools.permutations(nb):
        m = dict(zip(na, p))
        if all(wb[m[a], m[b]] == w for (a, b), w in wa.items()):
            return True
    return False
