"""Table of networkx functions with a unique answer, run through the wrapper
and on an equivalent plain graph (used by C10 and C11)."""
import inspect
import json
import os
import itertools

from sim.core import canon

SKIP = ("skip",)


def as_graph(r):
    """Canonical content of a graph result, plain or pymnet."""
    if hasattr(r, "aspects"):
        es = [(e[0], e[1], e[2]) for e in r.edges]
    else:
        es = [(a, b, d.get("weight", 1)) for a, b, d in r.edges(data=True)]
    return ("graph", sorted((canon(plain(n)) for n in r), key=repr),
            sorted((tuple(sorted((canon(plain(a)), canon(plain(b))), key=repr)) + (canon(w),) for a, b, w in es), key=repr))


def plain(x):
    """ntuple -> tuple"""
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    return x


def result(r, X):
    """Canonical form of a result, plus what kind of object graphs are."""
    if hasattr(r, "aspects") or isinstance(r, X.Graph):
        return as_graph(r)
    if hasattr(r, "__next__"):
        return canon([plain(x) for x in r])
    return canon(r)


class KwModule(object):
    """A module whose functions get every argument by keyword."""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, name):
        f = getattr(self._m, name)
        if isinstance(f, type) or not callable(f):
            return f

        def call(*a, **k):
            try:
                b = inspect.signature(f).bind(*a, **k)
            except (TypeError, ValueError):
                return f(*a, **k)
            kinds = inspect.signature(f).parameters
            kw = {}
            for n, v in b.arguments.items():
                if kinds[n].kind == inspect.Parameter.VAR_KEYWORD:
                    kw.update(v)
                elif kinds[n].kind in (inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY):
                    kw[n] = v
                else:
                    return f(*a, **k)
            return f(**kw)
        return call


class F(object):
    def __init__(self, name, fn, graph=False, need=None, shape=None, cb=False, gen=False, bulk=False):
        self.bulk = bulk         # needs a plain graph in the same order
        self.name = name
        self.fn = fn            # fn(m, G, s): m is the module (pymnet.nx or networkx)
        self.graph = graph      # result is a graph
        self.need = need or (lambda s: True)
        self.shape = shape      # canonicalise the result further
        self.cb = cb            # takes a callback s.cb
        self.gen = gen


class Sel(object):
    """Deterministic arguments from the content of the network."""

    def __init__(self, nodes, edges, pick, cb=None):
        self.nodes = sorted(nodes, key=repr)
        self.edges = sorted(edges, key=repr)
        self.pick = pick
        self.a = self.nodes[pick % len(self.nodes)]
        self.b = self.nodes[(pick // 8) % len(self.nodes)]
        self.k = pick % 3
        self.some = [n for i, n in enumerate(self.nodes) if (pick >> i) & 1]
        self.someedges = [e[:2] for i, e in enumerate(self.edges) if (pick >> (i % 10)) & 1]
        self.cb = cb or (lambda *a: None)
        nb = {}
        for x, y, w in self.edges:
            nb.setdefault(x, set()).add(y)
            nb.setdefault(y, set()).add(x)
        self.nb = nb
        seen = {self.nodes[0]}
        todo = [self.nodes[0]]
        while todo:
            for y in nb.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        self.connected = len(seen) == len(self.nodes)
        self.loops = any(x == y for x, y, w in self.edges)


def sets(r):
    return sorted((sorted((canon(plain(x)) for x in c), key=repr) for c in r), key=repr)


def pairs(r):
    """Undirected node pairs in any order, possibly with data."""
    return sorted((tuple(sorted((canon(plain(e[0])), canon(plain(e[1]))), key=repr)) for e in r), key=repr)


def dictlen(r):
    return canon(dict((k, len(v)) for k, v in dict(r).items()))


def dd(r):
    return canon(dict((k, dict(v)) for k, v in dict(r).items()))


def matrix(r):
    import numpy
    return canon(numpy.asarray(r.todense() if hasattr(r, "todense") else r))


def rounded(r):
    return canon(dict((k, round(float(v), 6)) for k, v in r.items()))


def more(n):
    return lambda s: len(s.nodes) >= n


def table():
    t = []

    def add(name, fn, **k):
        t.append(F(name, fn, **k))

    noloop = lambda s: not s.loops
    # ---- values
    add("density", lambda m, G, s: m.density(G))
    add("number_of_nodes", lambda m, G, s: m.number_of_nodes(G))
    add("number_of_edges", lambda m, G, s: m.number_of_edges(G))
    add("nodes", lambda m, G, s: set(m.nodes(G)))
    add("edges", lambda m, G, s: list(m.edges(G)), shape=pairs)
    add("degree", lambda m, G, s: dict(m.degree(G)))
    add("degree_one", lambda m, G, s: m.degree(G, s.a))
    add("degree_weight", lambda m, G, s: dict(m.degree(G, weight="weight")))
    add("degree_histogram", lambda m, G, s: m.degree_histogram(G))
    add("neighbors", lambda m, G, s: set(m.neighbors(G, s.a)))
    add("non_neighbors", lambda m, G, s: set(m.non_neighbors(G, s.a)))
    add("common_neighbors", lambda m, G, s: set(m.common_neighbors(G, s.a, s.b)), need=lambda s: s.a != s.b)
    add("non_edges", lambda m, G, s: list(m.non_edges(G)), shape=pairs)
    add("isolates", lambda m, G, s: set(m.isolates(G)))
    add("is_isolate", lambda m, G, s: m.is_isolate(G, s.a))
    add("is_connected", lambda m, G, s: m.is_connected(G))
    add("connected_components", lambda m, G, s: m.connected_components(G), shape=sets)
    add("number_connected_components", lambda m, G, s: m.number_connected_components(G))
    add("node_connected_component", lambda m, G, s: set(m.node_connected_component(G, s.a)))
    add("biconnected_components", lambda m, G, s: m.biconnected_components(G), shape=sets, need=noloop)
    add("articulation_points", lambda m, G, s: set(m.articulation_points(G)), need=noloop)
    add("bridges", lambda m, G, s: list(m.bridges(G)), shape=pairs, need=noloop)
    add("clustering", lambda m, G, s: m.clustering(G))
    add("clustering_one", lambda m, G, s: m.clustering(G, s.a))
    add("clustering_weight", lambda m, G, s: m.clustering(G, weight="weight"))
    add("triangles", lambda m, G, s: m.triangles(G))
    add("transitivity", lambda m, G, s: m.transitivity(G))
    add("average_clustering", lambda m, G, s: m.average_clustering(G))
    add("square_clustering", lambda m, G, s: m.square_clustering(G))
    add("core_number", lambda m, G, s: m.core_number(G), need=noloop)
    add("has_path", lambda m, G, s: m.has_path(G, s.a, s.b))
    add("shortest_path_length", lambda m, G, s: m.shortest_path_length(G, s.a, s.b))
    add("shortest_path_len", lambda m, G, s: len(m.shortest_path(G, s.a, s.b)))
    add("shortest_path_weight", lambda m, G, s: m.shortest_path_length(G, s.a, s.b, weight="weight"))
    add("all_shortest_paths", lambda m, G, s: set(tuple(p) for p in m.all_shortest_paths(G, s.a, s.b)))
    add("all_simple_paths", lambda m, G, s: set(tuple(p) for p in m.all_simple_paths(G, s.a, s.b, cutoff=3)), need=lambda s: s.a != s.b)
    add("all_pairs_len", lambda m, G, s: dict(m.all_pairs_shortest_path_length(G)), shape=dd)
    add("single_source_len", lambda m, G, s: dict(m.single_source_shortest_path_length(G, s.a)))
    add("dijkstra", lambda m, G, s: m.dijkstra_path_length(G, s.a, s.b))
    add("all_pairs_dijkstra", lambda m, G, s: dict(m.all_pairs_dijkstra_path_length(G)), shape=dd)
    add("bellman_ford", lambda m, G, s: m.bellman_ford_path_length(G, s.a, s.b))
    add("floyd_warshall", lambda m, G, s: m.floyd_warshall(G), shape=dd)
    add("astar", lambda m, G, s: m.astar_path_length(G, s.a, s.b))
    add("eccentricity", lambda m, G, s: m.eccentricity(G))
    add("diameter", lambda m, G, s: m.diameter(G))
    add("radius", lambda m, G, s: m.radius(G))
    add("center", lambda m, G, s: set(m.center(G)))
    add("periphery", lambda m, G, s: set(m.periphery(G)))
    add("wiener_index", lambda m, G, s: m.wiener_index(G))
    add("average_shortest_path_length", lambda m, G, s: m.average_shortest_path_length(G))
    add("global_efficiency", lambda m, G, s: m.global_efficiency(G))
    add("betweenness_centrality", lambda m, G, s: m.betweenness_centrality(G))
    add("edge_betweenness", lambda m, G, s: dict((frozenset(k), v) for k, v in m.edge_betweenness_centrality(G).items()), need=noloop)
    add("closeness_centrality", lambda m, G, s: m.closeness_centrality(G))
    add("closeness_weight", lambda m, G, s: m.closeness_centrality(G, distance="weight"))
    add("degree_centrality", lambda m, G, s: m.degree_centrality(G))
    add("harmonic_centrality", lambda m, G, s: m.harmonic_centrality(G))
    add("load_centrality", lambda m, G, s: m.load_centrality(G))
    add("pagerank", lambda m, G, s: m.pagerank(G), shape=rounded)
    add("average_neighbor_degree", lambda m, G, s: m.average_neighbor_degree(G))
    add("jaccard", lambda m, G, s: [p for u, v, p in m.jaccard_coefficient(G, [(s.a, s.b)])], need=noloop)
    add("adamic_adar", lambda m, G, s: [p for u, v, p in m.preferential_attachment(G, [(s.a, s.b)])])
    add("find_cliques", lambda m, G, s: m.find_cliques(G), shape=sets, need=noloop)
    add("graph_clique_number", lambda m, G, s: m.graph_clique_number(G), need=noloop)
    add("enumerate_all_cliques", lambda m, G, s: m.enumerate_all_cliques(G), shape=sets, need=noloop)
    add("is_bipartite", lambda m, G, s: m.is_bipartite(G))
    add("is_tree", lambda m, G, s: m.is_tree(G))
    add("is_forest", lambda m, G, s: m.is_forest(G))
    add("is_eulerian", lambda m, G, s: m.is_eulerian(G))
    add("is_chordal", lambda m, G, s: m.is_chordal(G), need=noloop)
    add("is_weighted", lambda m, G, s: m.is_weighted(G), need=lambda s: s.edges)
    add("is_directed", lambda m, G, s: m.is_directed(G))
    add("is_isomorphic_self", lambda m, G, s: m.is_isomorphic(G, G))
    add("is_isomorphic_path", lambda m, G, s: m.is_isomorphic(G, m.path_graph(len(s.nodes))))
    add("could_be_isomorphic", lambda m, G, s: m.could_be_isomorphic(G, G))
    add("is_dominating_set", lambda m, G, s: m.is_dominating_set(G, s.some))
    add("node_connectivity", lambda m, G, s: m.node_connectivity(G), need=noloop)
    add("edge_connectivity", lambda m, G, s: m.edge_connectivity(G), need=noloop)
    add("max_matching", lambda m, G, s: len(m.max_weight_matching(G, maxcardinality=True)), need=noloop)
    add("maximal_matching", lambda m, G, s: m.is_maximal_matching(G, m.maximal_matching(G)), need=noloop)
    add("mst_weight", lambda m, G, s: sum(d.get("weight", 1) for a, b, d in m.minimum_spanning_edges(G, data=True)), need=noloop)
    add("greedy_color", lambda m, G, s: all(c[x] != c[y] for c in [m.greedy_color(G)] for x, y, w in s.edges), need=noloop)
    add("adjacency_matrix", lambda m, G, s: m.adjacency_matrix(G, nodelist=s.nodes), shape=matrix)
    add("laplacian_matrix", lambda m, G, s: m.laplacian_matrix(G, nodelist=s.nodes), shape=matrix, need=noloop)
    add("to_numpy_array", lambda m, G, s: m.to_numpy_array(G, nodelist=s.nodes), shape=matrix)
    add("to_dict_of_lists", lambda m, G, s: dict((k, set(v)) for k, v in m.to_dict_of_lists(G).items()))
    add("to_edgelist", lambda m, G, s: list(m.to_edgelist(G)), shape=pairs)
    add("node_link_data", lambda m, G, s: sorted(repr(sorted((repr(l["source"]), repr(l["target"])))) for l in m.node_link_data(G)["links"]))
    add("adjacency_data", lambda m, G, s: len(m.adjacency_data(G)["nodes"]))
    add("generate_edgelist", lambda m, G, s: len(list(m.generate_edgelist(G))))
    add("cut_size", lambda m, G, s: m.cut_size(G, s.some))
    add("volume", lambda m, G, s: m.volume(G, s.some))
    add("constraint", lambda m, G, s: m.constraint(G), need=noloop)
    add("dfs_reach", lambda m, G, s: set(m.dfs_preorder_nodes(G, s.a)))
    add("bfs_reach", lambda m, G, s: len(list(m.bfs_edges(G, s.a))))
    add("descendants_at_distance", lambda m, G, s: set(m.descendants_at_distance(G, s.a, 1 + s.k)))
    add("cycle_basis", lambda m, G, s: len(m.cycle_basis(G)), need=noloop)
    add("selfloop_edges", lambda m, G, s: list(m.selfloop_edges(G)), shape=pairs)
    add("number_of_selfloops", lambda m, G, s: m.number_of_selfloops(G))
    add("nodes_with_selfloops", lambda m, G, s: set(m.nodes_with_selfloops(G)))
    add("get_edge_attributes", lambda m, G, s: dict((frozenset(k), v) for k, v in m.get_edge_attributes(G, "weight").items()), need=noloop)
    add("is_graphical", lambda m, G, s: m.is_graphical([d for n, d in m.degree(G)], method="eg"), need=noloop)
    add("s_metric", lambda m, G, s: m.s_metric(G, normalized=False))
    add("rich_club", lambda m, G, s: m.rich_club_coefficient(G, normalized=False), need=noloop)
    add("degree_assortativity", lambda m, G, s: m.degree_mixing_dict(G), shape=dd)
    add("is_empty", lambda m, G, s: m.is_empty(G))
    add("spectrum", lambda m, G, s: [round(float(v), 6) + 0.0 for v in sorted(m.adjacency_spectrum(G).real)], need=noloop)
    # ---- graphs
    g = dict(graph=True)
    add("subgraph", lambda m, G, s: m.subgraph(G, s.some), **g)
    add("induced_subgraph", lambda m, G, s: m.induced_subgraph(G, s.some + [s.a]), **g)
    add("edge_subgraph", lambda m, G, s: m.edge_subgraph(G, s.someedges), **g)
    add("restricted_view", lambda m, G, s: m.restricted_view(G, [s.a], [e for e in s.someedges if s.a not in e]), **g)
    add("complement", lambda m, G, s: m.complement(G), need=noloop, **g)
    add("line_graph", lambda m, G, s: len(m.line_graph(G)), need=noloop)
    add("ego_graph", lambda m, G, s: m.ego_graph(G, s.a, radius=1 + s.k), **g)
    add("k_core", lambda m, G, s: m.k_core(G, k=s.k), need=noloop, **g)
    add("k_core_max", lambda m, G, s: m.k_core(G), need=noloop, **g)
    add("k_shell", lambda m, G, s: m.k_shell(G), need=noloop, **g)
    add("power", lambda m, G, s: m.power(G, 1 + s.k), need=noloop, **g)
    add("minimum_spanning_tree", lambda m, G, s: m.minimum_spanning_tree(G), need=lambda s: not s.loops and len(set(w for x, y, w in s.edges)) == len(s.edges), **g)
    add("maximum_spanning_tree", lambda m, G, s: m.maximum_spanning_tree(G), need=lambda s: not s.loops and len(set(w for x, y, w in s.edges)) == len(s.edges), **g)
    add("relabel_nodes", lambda m, G, s: m.relabel_nodes(G, dict((n, "r%d" % i) for i, n in enumerate(s.nodes))), **g)
    add("convert_labels", lambda m, G, s: m.convert_node_labels_to_integers(G, ordering="sorted"), need=lambda s: len(set(map(type, s.nodes))) == 1, **g)
    add("compose", lambda m, G, s: m.compose(G, m.from_edgelist([("q1", "q2"), ("q2", "q3")])), **g)
    add("disjoint_union", lambda m, G, s: len(m.disjoint_union(G, G)))
    add("cartesian_product", lambda m, G, s: len(m.cartesian_product(G, m.path_graph(2))))
    add("tensor_product", lambda m, G, s: m.tensor_product(G, m.path_graph(2)), need=noloop, graph=True, shape=lambda r: len(list(r)))
    add("difference_self", lambda m, G, s: m.difference(G, G), **g)
    add("symmetric_difference", lambda m, G, s: m.symmetric_difference(G, G), **g)
    add("intersection", lambda m, G, s: m.intersection(G, G), **g)
    add("create_empty_copy", lambda m, G, s: m.create_empty_copy(G), **g)
    add("mycielski", lambda m, G, s: m.mycielskian(G), need=lambda s: not s.loops and all(isinstance(n, int) for n in s.nodes), **g)
    add("bfs_tree_nodes", lambda m, G, s: set(m.bfs_tree(G, s.a)))
    add("condense", lambda m, G, s: len(m.make_max_clique_graph(G)), need=noloop)
    # ---- generators of graphs
    add("path_graph", lambda m, G, s: m.path_graph(2 + s.k), gen=True, **g)
    add("complete_graph", lambda m, G, s: m.complete_graph(3 + s.k), gen=True, **g)
    add("complete_bipartite_graph", lambda m, G, s: m.complete_bipartite_graph(2, 1 + s.k), gen=True, **g)
    add("cycle_graph", lambda m, G, s: m.cycle_graph(4), gen=True, **g)
    add("star_graph", lambda m, G, s: m.star_graph(3), gen=True, **g)
    add("grid_2d_graph", lambda m, G, s: m.grid_2d_graph(2, 2 + s.k), gen=True, **g)
    add("wheel_graph", lambda m, G, s: m.wheel_graph(5), gen=True, **g)
    add("hypercube_graph", lambda m, G, s: m.hypercube_graph(2), gen=True, **g)
    add("balanced_tree", lambda m, G, s: m.balanced_tree(2, 2), gen=True, **g)
    add("petersen_graph", lambda m, G, s: m.petersen_graph(), gen=True, **g)
    add("ladder_graph", lambda m, G, s: m.ladder_graph(3), gen=True, **g)
    add("barbell_graph", lambda m, G, s: m.barbell_graph(3, 1), gen=True, **g)
    add("circulant_graph", lambda m, G, s: m.circulant_graph(6, [1, 2]), gen=True, **g)
    add("empty_graph", lambda m, G, s: m.empty_graph(s.k), gen=True, **g)
    add("from_edgelist", lambda m, G, s: m.from_edgelist([(1, 2), (2, 3)]), gen=True, **g)
    add("from_dict_of_dicts", lambda m, G, s: m.from_dict_of_dicts({1: {2: {"weight": 3}}, 2: {1: {"weight": 3}}}), gen=True, **g)
    add("from_dict_of_lists", lambda m, G, s: m.from_dict_of_lists({1: [2], 2: [3]}), gen=True, **g)
    add("gnp_random_graph", lambda m, G, s: m.gnp_random_graph(5, 0.5, seed=s.pick), gen=True, **g)
    add("gnm_random_graph", lambda m, G, s: m.gnm_random_graph(5, 4, seed=s.pick), gen=True, **g)
    add("barabasi_albert_graph", lambda m, G, s: m.barabasi_albert_graph(6, 2, seed=s.pick), gen=True, **g)
    add("karate_club_graph", lambda m, G, s: len(m.karate_club_graph()), gen=True)
    add("havel_hakimi_graph", lambda m, G, s: m.havel_hakimi_graph([2, 2, 1, 1]), gen=True, **g)
    add("full_rary_tree", lambda m, G, s: m.full_rary_tree(2, 5), gen=True, **g)
    # ---- callbacks
    c = dict(cb=True)
    add("cb:dijkstra", lambda m, G, s: m.dijkstra_path_length(G, s.a, s.b, weight=lambda u, v, d: (s.cb(m), d.get("weight", 1))[1]), **c)
    add("cb:astar", lambda m, G, s: m.astar_path_length(G, s.a, s.b, heuristic=lambda u, v: (s.cb(m), 0)[1]), **c)
    add("cb:iso", lambda m, G, s: m.is_isomorphic(G, G, edge_match=lambda d, e: (s.cb(m), True)[1]), **c)
    add("cb:view", lambda m, G, s: m.subgraph_view(G, filter_node=lambda n: (s.cb(m), n != s.a)[1]), graph=True, **c)
    add("cb:relabel", lambda m, G, s: m.relabel_nodes(G, lambda n: (s.cb(m), "r" + repr(n))[1]), graph=True, **c)
    add("cb:bfs", lambda m, G, s: len(m.ego_graph(G, s.a, radius=2)), **c)
    add("cb:power", lambda m, G, s: sorted(map(repr, m.optimize_graph_edit_distance(G, G, node_match=lambda a, b: (s.cb(m), True)[1])))[-1:] and 0, need=lambda s: len(s.nodes) <= 3, **c)
    add("cb:from_nodes", lambda m, G, s: len(m.quotient_graph(G, lambda u, v: (s.cb(m), u == v)[1])), **c)
    # ---- errors
    add("err:path", lambda m, G, s: m.shortest_path(G, s.a, "no such node"))
    add("err:neighbors", lambda m, G, s: list(m.neighbors(G, "no such node")))
    add("err:planar", lambda m, G, s: m.single_source_dijkstra(G, "no such node"))
    add("err:type", lambda m, G, s: m.density(G, 1, 2, 3))
    add("err:notimpl", lambda m, G, s: m.is_strongly_connected(G))
    add("err:flow", lambda m, G, s: m.maximum_flow_value(G, s.a, s.a))
    add("err:dag", lambda m, G, s: list(m.topological_sort(G)))
    add("err:degree", lambda m, G, s: m.havel_hakimi_graph([5, 1]))
    add("err:ba", lambda m, G, s: m.barabasi_albert_graph(2, 5))
    return t


def outcome(f, m, X, G, s):
    try:
        r = f.fn(m, G, s)
        if f.shape and not f.graph:
            return ("ok", f.shape(r)), r
        return ("ok", result(r, X) if f.shape is None else f.shape(r)), r
    except Exception as e:
        return ("exc", type(e).__name__), e


# ---- functions called with generic arguments on a plain graph that has the
# same nodes and links in the same order, so that every answer must be equal
ARGS = {"source": "a", "target": "b", "s": "a", "t": "b", "u": "a", "v": "b", "node": "a", "n": "a", "r": "a", "root": "a",
        "node1": "a", "node2": "b", "nodeA": "a", "nodeB": "b", "k": "k", "nodes": "some", "nbunch": "some", "nbunch1": "some",
        "S": "some", "T": "rest", "sources": "some", "targets": "rest", "C": "some", "center_nodes": "some", "cover": "someset",
        "matching": "someedges", "edges": "someedges", "x": "someset", "y": "someset", "z": "someset", "start": "a",
        "distance": "k", "num_colors": "k", "stretch": "k", "edge": "oneedge"}


def bulk_arg(kind, s):
    if kind == "rest":
        return [n for n in s.nodes if n not in s.some]
    if kind == "someset":
        return set(s.some)
    if kind == "oneedge":
        return s.edges[s.pick % len(s.edges)][:2] if s.edges else (s.a, s.b)
    return getattr(s, kind)


def bulk(names=None):
    import networkx
    if names is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nxbulk.json")) as f:
            names = json.load(f)
    out = []
    for name in names:
        f = getattr(networkx, name, None)
        if f is None:
            continue
        req = [p.name for p in inspect.signature(f).parameters.values() if p.default is p.empty and p.kind in (0, 1)][1:]

        # functions that draw get their own stream: a thread that draws from
        # the shared one changes what another draws
        seeded = name in ("maximal_independent_set", "spanner")

        def fn(m, G, s, name=name, req=req, seeded=seeded):
            return getattr(m, name)(G, *[bulk_arg(ARGS[r], s) for r in req], **({"seed": s.pick} if seeded else {}))
        out.append(F("bulk:" + name, fn, bulk=True))
    return out


def same_order(X, net):
    """A plain graph with the nodes and links of net in the same order."""
    g = X.Graph()
    g.add_nodes_from(list(net))
    data = {}
    for u in list(net):
        for v in list(net[u]):
            w = net[u, v]
            d = data.get((v, u))
            if d is None:
                d = {"weight": w}
            data[u, v] = d
            g._adj[u][v] = d
    return g
