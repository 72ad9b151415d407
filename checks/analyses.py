"""The read-only analyses of the library, as data: which networks they apply
to, how they are called, and how their result is brought into a form that does
not depend on iteration order."""
from sim.core import canon, net_snapshot

TABLE = []


class Sel(object):
    """Concrete arguments: labels taken from the network's sorted content."""

    def __init__(self, net, pick):
        self.nodes = sorted(net, key=repr)
        self.node = self.nodes[pick % len(self.nodes)]
        self.some = [n for i, n in enumerate(self.nodes) if (pick >> i) & 1] or self.nodes[:1]
        if net.aspects:
            self.nls = sorted(net.iter_node_layers(), key=repr)
            self.nl = self.nls[pick % len(self.nls)] if self.nls else None
            self.layers = [sorted(net.get_layers(a + 1), key=repr) for a in range(net.aspects)]
            self.layer = self.layers[0][pick % len(self.layers[0])]
            self.somel = [[l for i, l in enumerate(ls) if (pick >> (i + 3)) & 1] or ls[:1] for ls in self.layers]
        else:
            self.nls = self.nodes
            self.nl = self.node


class Analysis(object):
    def __init__(self, name, kinds, fn, **o):
        self.name = name
        self.kinds = kinds
        self.fn = fn
        self.aligned = o.get("aligned", False)      # needs a node-aligned network
        self.undirected = o.get("undirected", False)
        self.random = o.get("random", False)        # result depends on the stream
        self.pos = o.get("pos", False)
        self.post = o.get("post", canon)
        self.need = o.get("need")                   # predicate on (net, sel)
        self.heavy = o.get("heavy", False)
        self.local = o.get("local", False)          # result depends on order even in principle

    def applies(self, net, kind, sel):
        return (kind in self.kinds and (net.fullyInterconnected or not self.aligned)
                and not (self.undirected and net.directed) and (self.need is None or self.need(net, sel)))


def reg(name, kinds, fn, **o):
    TABLE.append(Analysis(name, kinds.split(), fn, **o))


def bag(x):
    """A sequence whose order is not part of the result."""
    return ("bag",) + tuple(sorted((canon(v) for v in x), key=repr))


def matrix(r):
    m, nl = r
    import numpy
    m = numpy.asarray(m)
    d = {}
    for i, a in enumerate(nl):
        for j, b in enumerate(nl):
            d[(a, b)] = float(m[i, j])
    return canon(d)


def vectors(r):
    """Parallel lists over node-layers in unspecified order."""
    return bag(zip(*r))


def edges_of(net):
    out = []
    for e in net.edges:
        e = tuple(e)
        ends = [tuple(e[0:-1:2]), tuple(e[1:-1:2])]
        if not net.directed:
            ends.sort(key=repr)
        out.append((canon(ends[0]), canon(ends[1]), canon(e[-1])))
    return ("bag",) + tuple(sorted(out, key=repr))


def json_of(P, net, s):
    import json
    from pymnet import netio
    d = json.loads(netio.write_json(net))
    nodes = [n["name"] for n in d["nodes"]]
    layers = [l["name"] for l in d["layers"]]
    return (sorted(nodes, key=repr), sorted(layers, key=repr),
            sorted((sorted([repr(nodes[e["source"]]), repr(nodes[e["target"]])]), repr(layers[e["layer"]]), e["value"]) for e in d["links"]))


def roundtrip(P, net, s):
    import pickle
    return pickle.loads(pickle.dumps(net))


def deep(P, net, s):
    import copy
    return copy.deepcopy(net)


def esu(P, net, s, **k):
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
    res = []
    sample_multilayer_subgraphs_esu(net, res, **k)
    return res


def dumb(P, net, s, **k):
    from pymnet.sampling.dumb import dumb_enumeration
    res = []
    dumb_enumeration(net, res, **k)
    return res


def subs(res):
    return bag((frozenset(a), frozenset(b)) for a, b in res)


def is_mod(P, net, s):
    from pymnet.net import ModularityMultilayerNetworkView
    v = ModularityMultilayerNetworkView(net)
    return dict(((a, b), v[tuple(x for p in zip(a, b) for x in p)]) for a in s.nls for b in s.nls)


def big(n):
    return lambda net, s: len(s.nodes) >= n


def setup(P):
    """Fill the table (needs the library imported)."""
    if TABLE:
        return TABLE
    import pymnet
    from pymnet import cc, diagnostics as dg, transforms as tr, models, netio, nxwrap as nx, isomorphisms as iso
    from pymnet.visuals import layouts
    from pymnet.visuals.webplots import webplot
    ALL = "mono ml1 ml2 ml3 mux1 mux2 mux3"
    ML = "ml1 ml2 ml3 mux1 mux2 mux3"
    MUX = "mux1 mux2 mux3"
    reg("degs", ALL, lambda P, n, s: dg.degs(n))
    reg("degs-nodes", ALL, lambda P, n, s: dg.degs(n, degstype="nodes"))
    reg("density", ALL, lambda P, n, s: dg.density(n), aligned=True, need=big(2))
    reg("edges", ALL, lambda P, n, s: n, post=edges_of)
    reg("len-edges", ALL, lambda P, n, s: len(n.edges))
    reg("node-handle", ALL, lambda P, n, s: (sorted(map(repr, n[s.nl])), n[s.nl].deg(), n[s.nl].str(), n[s.nl].deg_in(), n[s.nl].str_out()), need=lambda n, s: s.nl is not None)
    reg("slice-handle", "ml1 mux1", lambda P, n, s: (sorted(map(repr, n[s.nl[0], :, s.nl[1], :])), n[s.nl[0], :, s.nl[1], :].deg(), n[s.nl[0], :, s.nl[1], :].str_out(), n[s.nl[0], :, s.nl[1], s.layer].deg_out()), need=lambda n, s: s.nl is not None)
    reg("equality", ALL, lambda P, n, s: (n == n, n != deep(P, n, s)))
    reg("missing-lookup", ALL, lambda P, n, s: n[tuple(x for p in zip(*([(s.node,) if not n.aspects else s.nls[0], (s.nodes[-1],) if not n.aspects else s.nls[-1]])) for x in p)], need=lambda n, s: bool(s.nls))
    reg("deepcopy", ALL, deep)
    reg("pickle", ALL, roundtrip)
    reg("subnet", ALL, lambda P, n, s: tr.subnet(n, s.some, *(s.somel if n.aspects else ())))
    reg("subnet-all", ALL, lambda P, n, s: tr.subnet(n, s.nodes, *(s.layers if n.aspects else ())))
    reg("relabel", ALL, lambda P, n, s: tr.relabel(n, dict((x, "new-%d" % i) for i, x in enumerate(s.some))))
    reg("relabel-layers", "ml1 mux1", lambda P, n, s: tr.relabel(n, layerNames=dict((x, i + 50) for i, x in enumerate(s.somel[0]))), need=lambda n, s: True)
    reg("normalize", ALL, lambda P, n, s: tr.normalize(n))
    reg("threshold", ALL, lambda P, n, s: tr.threshold(n, 1.5))
    reg("threshold-le", ALL, lambda P, n, s: tr.threshold(n, 1.5, method="<=", ignoreCouplingEdges=True))
    reg("aggregate-layers", "ml1 mux1", lambda P, n, s: tr.aggregate(n, 1))
    reg("aggregate-nodes", "ml1 mux1", lambda P, n, s: tr.aggregate(n, 0, selfEdges=True), aligned=True)
    reg("aggregate-2", "ml2 mux2", lambda P, n, s: tr.aggregate(n, (1, 2)))
    reg("aggregate-21", "ml2 mux2", lambda P, n, s: tr.aggregate(n, 2))
    reg("aggregate-31", "ml3 mux3", lambda P, n, s: tr.aggregate(n, (3, 1)))
    reg("overlay", MUX, lambda P, n, s: tr.overlay_network(n))
    reg("underlying", ALL, lambda P, n, s: tr.get_underlying_graph(n))
    reg("supra", ALL, lambda P, n, s: n.get_supra_adjacency_matrix(), post=matrix)
    reg("supra-intra", ML, lambda P, n, s: n.get_supra_adjacency_matrix(includeCouplings=False), post=matrix)
    reg("subnet_iter", ALL, lambda P, n, s: list(tr.subnet_iter(n, remove_edges=False)), post=bag, heavy=True)
    reg("randomize", "mux1", lambda P, n, s: tr.randomize_nodes_by_layer(n), random=True)
    reg("dijkstra", ALL, lambda P, n, s: dg.dijkstra(n, [s.nl]), pos=True, need=lambda n, s: s.nl is not None)
    reg("dijkstra-prune", "ml1 mux1", lambda P, n, s: dg.dijkstra_mlayer_prune(n, [(s.node, None)], [1]), aligned=True)
    reg("multiplex-density", MUX, lambda P, n, s: dg.multiplex_density(n), aligned=True, need=big(2))
    reg("multiplex-degs", MUX, lambda P, n, s: dg.multiplex_degs(n))
    reg("multiplex-degs-nodes", MUX, lambda P, n, s: dg.multiplex_degs(n, degstype="nodes"))
    reg("overlap-degs", "mux1", lambda P, n, s: dg.overlap_degs(n), undirected=True, aligned=True,
        post=lambda r: canon(dict((frozenset(k), v) for k, v in r.items())))
    # clustering
    und = dict(undirected=True)
    for nm in ("lcc", "cc_zhang", "cc_onnela", "cc_barrat", "cc_num_den"):
        reg(nm, "mono", (lambda f: lambda P, n, s: f(n, s.node))(getattr(cc, nm)), need=lambda n, s: len(n.edges) > 0, **und)
    reg("gcc_zhang", "mono", lambda P, n, s: cc.gcc_zhang(n), need=lambda n, s: len(n.edges) > 0, **und)
    reg("cc_sequence", "mux1", lambda P, n, s: cc.cc_sequence(n, s.node), aligned=True, post=vectors, **und)
    reg("cc_super_nc", "mux1", lambda P, n, s: cc.gcc_super_graph_no_couplings(n), aligned=True, **und)
    reg("cc_super", "mux1", lambda P, n, s: cc.gcc_super_graph(n), aligned=True, **und)
    reg("cc_barrett", "mux1", lambda P, n, s: cc.cc_barrett(n, s.node, tr.aggregate(n, 1)), aligned=True, **und)
    reg("cc_barrett_optimized", "mux1", lambda P, n, s: cc.cc_barrett_optimized(n, s.node, tr.aggregate(n, 1)), aligned=True, **und)
    reg("cc_barrett_explicit", "mux1", lambda P, n, s: cc.cc_barrett_explicit(n, s.node), aligned=True, **und)
    reg("elementary_cycles", "mux1", lambda P, n, s: cc.elementary_cycles(n), heavy=True, **und)
    reg("elementary_cycles-n", "mux1", lambda P, n, s: cc.elementary_cycles(n, s.node), **und)
    reg("elementary_cycles-nl", "mux1", lambda P, n, s: cc.elementary_cycles(n, s.nl[0], s.nl[1]), need=lambda n, s: s.nl is not None, **und)
    reg("elementary_cycles-anet", "mux1", lambda P, n, s: cc.elementary_cycles(n, s.node, anet=tr.aggregate(n, 1)), aligned=True, **und)
    reg("cycle-adj", "mux1", lambda P, n, s: cc.cc_cycle_vector_adj(n, s.node, s.layer), aligned=True, need=big(2), **und)
    reg("lcc_aw", "mux1", lambda P, n, s: cc.lcc_aw(n, s.nl[0], s.nl[1]), need=lambda n, s: s.nl is not None, **und)
    reg("lcc_aw-vector", "mux1", lambda P, n, s: cc.lcc_aw(n, s.nl[0], s.nl[1], returnCVector=True), need=lambda n, s: s.nl is not None, **und)
    reg("avg_lcc_aw", "mux1", lambda P, n, s: cc.avg_lcc_aw(n), heavy=True, **und)
    reg("gcc_aw", "mux1", lambda P, n, s: cc.gcc_aw(n), heavy=True, **und)
    reg("sncc_aw", "mux1", lambda P, n, s: cc.sncc_aw(n, s.node), **und)
    reg("sncc_aw-anet", "mux1", lambda P, n, s: cc.sncc_aw(n, s.node, anet=tr.aggregate(n, 1)), aligned=True, **und)
    reg("sncc_aw_sep", "mux1", lambda P, n, s: cc.sncc_aw_seplayers(n, s.node), **und)
    reg("gcc_aw_sep_adj", "mux1", lambda P, n, s: cc.gcc_aw_seplayers_adj(n), aligned=True, need=big(2), **und)
    reg("gcc_aw_vec_adj", "mux1", lambda P, n, s: cc.gcc_aw_vector_adj(n), aligned=True, need=big(2), post=vectors, **und)
    reg("cc_aw_vector", "mux1", lambda P, n, s: cc.cc_aw_vector(n), aligned=True, post=vectors, **und)
    for nm in ("gcc_moreno", "gcc_moreno2"):
        reg(nm, "mux1", (lambda f: lambda P, n, s: f(n))(getattr(cc, nm)), aligned=True, need=big(2), **und)
    reg("gcc_moreno2_sep", "mux1", lambda P, n, s: cc.gcc_moreno2_seplayers(n), **und)
    for nm in ("gcc_contraction_m", "gcc_contraction_m_ct", "gcc_contraction_m_full", "gcc_contraction_o", "gcc_contraction_o_full", "gcc_contraction_o2"):
        reg(nm, "mux1", (lambda f: lambda P, n, s: f(n))(getattr(cc, nm)), heavy=True, aligned=True, **und)
    for nm in ("lcc_brodka", "lcc_battiston1", "lcc_battiston2", "lcc_criado"):
        reg(nm, "mux1", (lambda f: lambda P, n, s: f(n, s.node))(getattr(cc, nm)), aligned=True, need=lambda n, s: len(s.layers[0]) > 1, **und)
    # isomorphisms
    reg("isomorphic", ALL, lambda P, n, s: iso.is_isomorphic(n, tr.normalize(n)), heavy=True, **und)
    reg("isomorphic-nodes", ML, lambda P, n, s: iso.is_isomorphic(n, tr.relabel(n, dict((x, i) for i, x in enumerate(s.nodes))), allowed_aspects=[0]), heavy=True, **und)
    reg("isomorphism", ALL, lambda P, n, s: iso.get_isomorphism(n, tr.relabel(n, dict((x, i) for i, x in enumerate(s.nodes)))), heavy=True, local=True, **und)
    # networkx
    reg("nx-components", "mono", lambda P, n, s: list(nx.connected_components(n)), post=lambda r: bag(frozenset(c) for c in r), **und)
    reg("nx-lengths", "mono", lambda P, n, s: dict(nx.shortest_path_length(n, s.node)), **und)
    reg("nx-mst", "mono", lambda P, n, s: (lambda t: (len(t), len(t.edges), sum(e[-1] for e in t.edges)))(nx.minimum_spanning_tree(n)), **und)
    reg("nx-clustering", "mono", lambda P, n, s: nx.clustering(n), **und)
    reg("nx-betweenness", "mono", lambda P, n, s: nx.betweenness_centrality(n), **und)
    reg("nx-complement", "mono", lambda P, n, s: nx.complement(n), **und)
    reg("nx-degree", "mono", lambda P, n, s: dict(nx.MonoplexGraphNetworkxView(n).degree()), **und)
    # output
    reg("json", "mux1", json_of, **und)
    reg("webplot", "mux1", lambda P, n, s: len(webplot(n)), local=True, **und)
    # sampling on a copy
    reg("esu", "ml1 mux1", lambda P, n, s: esu(P, n, s, nnodes=2, nlayers=1), post=subs, **und)
    reg("esu-sizes", "ml1 mux1", lambda P, n, s: esu(P, n, s, sizes=[2, 1], intersections=[1]), post=subs, **und)
    reg("esu-weak", "ml1 mux1", lambda P, n, s: esu(P, n, s, sizes=[2, 2], intersections=[1], nnodes=3, intersection_type="less_or_equal"), post=subs, **und)
    reg("dumb", "ml1 mux1", lambda P, n, s: dumb(P, n, s, nnodes=2, nlayers=2), post=subs, **und)
    reg("layout-fr", "ml1 mux1", lambda P, n, s: layouts.get_fruchterman_reingold_multilayer_layout(n, iterations=3), random=True)
    reg("layout-shell", "ml1 mux1", lambda P, n, s: layouts.get_layout("circular", n), random=True)
    reg("layout-spring", "ml1 mux1", lambda P, n, s: layouts.get_layout("spring", n), random=True)
    reg("modularity", "ml1 mux1", is_mod, need=lambda n, s: len(n.edges) > 0 and len(s.nls) < 9, aligned=True, **und)
    return TABLE


def snapshot(net):
    """Everything observable about a network, couplings and intra-layer
    networks included."""
    s = [net_snapshot(net)]
    for nl in sorted(net.iter_node_layers(), key=repr):
        h = net[nl] if net.aspects else net[nl[0] if isinstance(nl, tuple) and len(nl) == 1 else nl]
        s.append((canon(nl), canon(sorted(map(repr, h))), canon(h.deg())))
    if hasattr(net, "couplings"):
        for c in net.couplings:
            s.append(tuple(net_snapshot(x) if hasattr(x, "edges") else canon(x) for x in c) if isinstance(c, tuple) else canon(c))
        for l in sorted(net.iter_layers(), key=repr):
            s.append((canon(l), net_snapshot(net.A[l])))
    return tuple(s)


def outcome(a, pymnet, net, pick):
    """("ok", value) or ("exc", type)."""
    try:
        return ("ok", a.post(a.fn(pymnet, net, Sel(net, pick))))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])
