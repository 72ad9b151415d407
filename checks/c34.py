"""C34: graphlets, orbits, orbit counts and orbit equations."""
import itertools
import sys

from sim import bliss

from checks import measure
from checks.measure import Measure, Skip, gen_mux

USES_TRACE = True
SHRINK = ("steps",)
COUPLINGS = [["none", 1.0], ["none", 1.0], ["categorical", 1.0], ["categorical", 2.5], ["ordinal", 1.0]]


def world(rng, tier):
    cpl = rng.choice(COUPLINGS)
    cfg = gen_mux(rng, aspects=1, directed=False, aligned=True, couplings=[cpl], weights=rng.choice([[1], [1, 2, 0.5]]), noedge=rng.choice([0, 0, 0, 4]),
                  nn=rng.randint(3, 6), nlay=rng.choice([1, 1, 2, 2, 2, 3]))
    if cpl[0] == "ordinal":
        cfg["labels"] = "int"
    return cfg


def generate(rng, tier):
    sc = measure.generate(sys.modules[__name__], rng, tier)
    for w, cfg in enumerate(sc["worlds"]):
        cfg["heavy"] = any(st[0] in ("fault", "threads", "race") for st in sc["steps"])
        sc["steps"][:0] = [["do", w, o] for o in measure.gen_ops(rng, cfg, rng.choice([0, 10, 20]))]
    return sc


def execute(sc, ctx):
    bliss.reset(0)
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    return measure.shrink(sys.modules[__name__], sc)


# -- brute force ------------------------------------------------------------
# A small multiplex network is (k, layers, links, coupled) with nodes 0..k-1,
# links a set of (i, j, layer), coupled a set of pairs of layers.
def canon(k, layers, links, coupled, free, root=None):
    """The least form over all orders of the nodes (the root first) and, when
    the layers may be permuted, of the layers."""
    best = None
    names = list(layers)
    lperms = itertools.permutations(range(len(names))) if free else [None]
    for lp in lperms:
        lm = dict((l, l) for l in names) if lp is None else dict(zip(names, lp))
        cp = tuple(sorted(tuple(sorted((repr(lm[a]), repr(lm[b])))) for a, b in coupled))
        if best is not None and (cp, ) > (best[0], ):
            continue
        for p in itertools.permutations(range(k)):
            if root is not None and p[root] != 0:
                continue
            f = tuple(sorted((min(p[i], p[j]), max(p[i], p[j]), repr(lm[l])) for i, j, l in links))
            if best is None or (cp, f) < best:
                best = (cp, f)
    return (k, tuple(sorted(map(repr, names))) if not free else len(names)) + (best or ((), ()))


memo = {}


def small(k, layers, links, coupled, free, root=None):
    key = (k, tuple(map(repr, layers)), frozenset(links), frozenset(coupled), free, root)
    if key not in memo:
        if len(memo) > 200000:
            memo.clear()
        memo[key] = canon(k, layers, links, coupled, free, root)
    return memo[key]


def of_net(net, free, root=None):
    """The form of a network the library made."""
    nodes = sorted(net.slices[0], key=repr)
    place = dict((x, i) for i, x in enumerate(nodes))
    links, coupled = set(), set()
    for e in net.edges:
        a, b, l, m, w = e
        if l == m:
            links.add((min(place[a], place[b]), max(place[a], place[b]), l))
        else:
            assert a == b, "a link between nodes and layers"
            coupled.add(tuple(sorted((l, m), key=repr)))
    return small(len(nodes), tuple(sorted(net.slices[1], key=repr)), links, coupled, free, None if root is None else place[root])


def pairs_of(cpl, layers):
    if cpl is None or cpl[0] == "none":
        return set()
    if cpl[0] == "categorical":
        return set(tuple(sorted(p, key=repr)) for p in itertools.combinations(layers, 2))
    return set(tuple(sorted(p, key=repr)) for p in itertools.combinations(layers, 2) if abs(p[0] - p[1]) == 1)


def connected(k, links):
    seen = set([0])
    todo = [0]
    while todo:
        x = todo.pop()
        for i, j, _ in links:
            for a, b in ((i, j), (j, i)):
                if a == x and b not in seen:
                    seen.add(b)
                    todo.append(b)
    return len(seen) == k


classes_memo = {}


def classes(k, layers, n_l, cpl, free):
    """All forms of connected networks with k nodes and n_l of the layers."""
    key = (k, tuple(map(repr, layers)), n_l, tuple(cpl or ()), free)
    if key not in classes_memo:
        out = set()
        for ls in itertools.combinations(layers, n_l):
            cp = pairs_of(cpl, ls)
            slots = [(i, j, l) for i in range(k) for j in range(i) for l in ls]
            for bits in range(1 << len(slots)):
                links = [(min(s[0], s[1]), max(s[0], s[1]), s[2]) for b, s in enumerate(slots) if bits >> b & 1]
                if len(links) >= k - 1 and connected(k, links):
                    out.add(canon(k, ls, links, cp, free))
        if len(classes_memo) > 500:
            classes_memo.clear()
        classes_memo[key] = out
    return classes_memo[key]


# -- arguments --------------------------------------------------------------
SIZES = {1: [3, 4, 4, 4, 4, 5], 2: [2] + [3] * 14 + [4], 3: [2, 2, 3]}
SMALL = {1: [3, 3, 4], 2: [2, 3, 3], 3: [2]}      # when every line is scheduled


def args(v, count=False, small_only=False):
    if not v.nodes or not v.layers[0]:
        return None
    layers = v.layers[0]
    if len(layers) > 3:
        return None
    cpl = v.cfg["couplings"][0]
    n_l = len(layers) if count or v.rng.random() < 0.6 else v.rng.randint(1, len(layers))
    n = v.rng.choice((SMALL if v.cfg.get("heavy") else SIZES)[len(layers)])
    if small_only:
        n = min(n, 3)
    lab = set(isinstance(x, str) for x in layers)
    if len(lab) > 1:
        return None
    order = list(layers)
    v.rng.shuffle(order)
    return {"n": n, "layers": order, "n_l": n_l, "cpl": cpl, "free": v.rng.random() < 0.5, "solver": (v.rng.getrandbits(20), v.rng.getrandbits(2)),
            "list": v.rng.random() < 0.5, "one": v.rng.random() < 0.5, "pick": v.rng.getrandbits(20)}


def allowed(a):
    return {"allowed_aspects": ([0, 1] if a["list"] else "all") if a["free"] else [0]}


def make(a, n=None):
    from pymnet import graphlets as G
    bliss.reset(*a["solver"])
    k = dict(allowed(a))
    if a["n_l"] != len(a["layers"]) or a["one"]:
        k["n_l"] = a["n_l"]
    if a["cpl"][0] != "none" or a["one"]:
        k["couplings"] = [tuple(a["cpl"])]
    return G.graphlets(n or a["n"], a["layers"], **k)


# -- graphlets and orbits ---------------------------------------------------
def graphlets(P, n, a):
    from pymnet import isomorphisms as I
    nets, invs = make(a)
    out = {}
    for k in nets:
        out[k] = sorted(of_net(x, a["free"]) for x in nets[k])
        for i, x in enumerate(nets[k]):
            if not x.fullyInterconnected or x.directed or len(x.slices[0]) != k or len(x.slices[1]) != a["n_l"]:
                return "graphlet %d of %d nodes is %r" % (i, k, list(x.edges))
            c = str(I.get_complete_invariant(x, **allowed(a)))
            if invs.get(c) != (k, i):
                return "the invariant of graphlet %r leads to %r" % ((k, i), invs.get(c))
    if len(invs) != sum(len(x) for x in nets.values()):
        return "%d invariants" % len(invs)
    return out


def graphlets_ref(v, a):
    return dict((k, sorted(classes(k, sorted(a["layers"], key=repr), a["n_l"], a["cpl"], a["free"]))) for k in range(2, a["n"] + 1))


def same_orbit(net, x, y, free):
    return of_net(net, free, x) == of_net(net, free, y)


def orbits(P, n, a):
    from pymnet import graphlets as G
    nets, invs = make(a)
    auts = G.automorphism_orbits(nets, **allowed(a))
    want = {}
    for k in nets:
        for i, x in enumerate(nets[k]):
            for s in x.slices[0]:
                want[(k, i, s)] = min(t for t in x.slices[0] if same_orbit(x, s, t, a["free"]))
    if set(auts) != set(want) or any((auts[(k, i, s)] == auts[(k, i, t)]) != (want[(k, i, s)] == want[(k, i, t)]) or want[(k, i, auts[(k, i, s)])] != want[(k, i, s)]
                                     for k, i, s in want for t in nets[k][i].slices[0]):
        return "orbits %r, expected %r" % (dict(auts), want)
    want = dict(auts)
    num = G.orbit_numbers(a["n"], nets, auts)
    every = set((k, i, o) for (k, i, s), o in want.items())
    if set(num) != every or sorted(num.values()) != list(range(len(every))):
        return "orbit numbers %r" % num
    lst = G.ordered_orbit_list(num)
    if [num[o] for o in lst] != list(range(len(every))):
        return "orbit list %r for %r" % (lst, num)
    by = G.list_orbits(auts)
    if sorted(o for k in by for o in by[k]) != sorted(every) or any(o[0] != k for k in by for o in by[k]):
        return "orbits by size %r" % by
    return None


def orbits_nl(P, n, a):
    """Orbits of node-layers: a node-layer may be carried to another one by a
    permutation of nodes and (if free) layers that keeps the network."""
    from pymnet.graphlets import graphlets_module as GM
    nets, invs = make(a, min(a["n"], 3))
    auts = GM.automorphism_orbits_nl(nets, **allowed(a))
    want = {}
    for k in nets:
        for i, x in enumerate(nets[k]):
            es = set(frozenset([(e[0], e[2]), (e[1], e[3])]) for e in x.edges)
            ns, ls = sorted(x.slices[0]), sorted(x.slices[1])
            group = []
            for p in itertools.permutations(ns):
                for q in itertools.permutations(ls) if a["free"] else [ls]:
                    f = lambda nl: (p[ns.index(nl[0])], q[ls.index(nl[1])])
                    if set(frozenset(map(f, e)) for e in es) == es:
                        group.append((p, q))
            for nl in itertools.product(ns, ls):
                want[(k, i, nl)] = min((p[ns.index(nl[0])], q[ls.index(nl[1])]) for p, q in group)
    if set(auts) != set(want) or any((auts[(k, i, s)] == auts[(k, i, t)]) != (want[(k, i, s)] == want[(k, i, t)]) or want[(k, i, auts[(k, i, s)])] != want[(k, i, s)]
                                     for k, i, s in want for t in itertools.product(nets[k][i].slices[0], nets[k][i].slices[1])):
        return "orbits of node-layers %r, expected %r" % (dict(auts), want)
    return None


def names(P, n, a):
    """The orbit of each node of a subnetwork with the nodes of a graphlet."""
    from pymnet import transforms
    from pymnet.graphlets import graphlets_module as GM
    G, nets, invs, auts, lst, form = setting(a)
    s = transforms.subnet(n, a["_nodes"], a["layers"])
    return dict((x, form.get(tuple(GM.orbit_name(x, s, nets, invs, auts, **allowed(a))), "no such orbit")) for x in a["_nodes"])


def names_ref(v, a):
    layers = tuple(v.layers[0])
    place = dict((x, i) for i, x in enumerate(a["_nodes"]))
    ls = set((min(place[x[0]], place[y[0]]), max(place[x[0]], place[y[0]]), x[1]) for x, y in v.m.e if x[1] == y[1] and x[0] in place and y[0] in place)
    if not connected(len(place), ls):
        raise Skip()
    return dict((x, small(len(place), layers, ls, pairs_of(a["cpl"], layers), a["free"], place[x])) for x in place)


def name_args(v):
    a = args(v, True)
    if a is None or len(v.nodes) < 2:
        return None
    a["_nodes"] = sorted(v.rng.sample(v.nodes, v.rng.randint(2, min(a["n"], len(v.nodes)))), key=repr)
    return a


# -- counting ---------------------------------------------------------------
def count(v, a):
    """{(node, rooted form): number of connected induced subnetworks}"""
    key = ("count", a["n"], a["free"])
    if key in v.cache:
        return v.cache[key]
    links = set()
    for (x, y), w in v.m.e.items():
        if x[1] == y[1]:
            links.add((x[0], y[0], x[1]))
    layers = tuple(v.layers[0])
    cp = pairs_of(a["cpl"], layers)
    out = {}
    for k in range(2, a["n"] + 1):
        for nodes in itertools.combinations(v.nodes, k):
            place = dict((x, i) for i, x in enumerate(nodes))
            ls = set((min(place[x], place[y]), max(place[x], place[y]), l) for x, y, l in links if x in place and y in place)
            if not connected(k, ls):
                continue
            for x in nodes:
                f = small(k, layers, ls, cp, a["free"], place[x])
                out[(x, f)] = out.get((x, f), 0) + 1
    v.cache[key] = out
    return out


def setting(a):
    from pymnet import graphlets as G
    nets, invs = make(a)
    auts = G.automorphism_orbits(nets, **allowed(a))
    lst = G.ordered_orbit_list(G.orbit_numbers(a["n"], nets, auts))
    form = dict((o, of_net(nets[o[0]][o[1]], a["free"], o[2])) for o in lst)
    return G, nets, invs, auts, lst, form


def counted(P, n, a):
    G, nets, invs, auts, lst, form = setting(a)
    before = sorted(map(tuple, n.edges), key=repr)
    if a["one"]:
        got = {}
        for x in n:
            G.orbit_counts(a["n"], x, n, nets, got, auts, invs, lst, **allowed(a))
    else:
        got = G.orbit_counts_all(n, a["n"], nets, invs, auts, lst, **allowed(a))
    if sorted(map(tuple, n.edges), key=repr) != before:
        return "the network was changed"
    if set(got) != set((x, o) for x in n for o in lst):
        return "orbits missing or too many"
    return dict(((x, form[o]), c) for (x, o), c in got.items() if c)


def equations(P, n, a):
    """[(left side, right side)] on the counts of each node."""
    G, nets, invs, auts, lst, form = setting(a)
    eqs = G.orbit_equations(a["n"], nets, auts, invs, **allowed(a))
    from pymnet.graphlets import graphlets_module as GM
    out = []
    for key, right in eqs.items():
        if key[1] == 2:
            out.append(((form[key[0]],), 0, dict((form[o], c) for o, c in right.items())))
        else:
            one, two = sorted((key[0][0], key[1][0]), key=lambda o: o[0])
            sub = GM.subtrahend(two, one, nets, auts, invs, **allowed(a))
            out.append(((form[one], form[two]), sub, dict((form[o], c) for o, c in right.items())))
    pairs = set(frozenset([o, p]) for o in lst for p in lst if min(o[0], p[0]) <= 3 and o[0] + p[0] - 1 <= a["n"])
    if sorted(map(sorted, pairs)) != sorted(sorted(set([k[0]] if k[1] == 2 else [k[0][0], k[1][0]])) for k in eqs):
        return "equations for %r, expected %r" % (sorted(eqs), sorted(map(sorted, pairs)))
    return holds(a, out)


def holds(a, eqs):
    c = a["_counts"]
    for left, sub, right in eqs:
        for x in sorted(set(x for x, _ in c), key=repr):
            g = lambda f: c.get((x, f), 0)
            if len(left) == 1:
                l = g(left[0]) * (g(left[0]) - 1) / 2
            else:
                l = (g(left[0]) - sub) * g(left[1])
            r = sum(k * g(o) for o, k in right.items())
            if l != r:
                return "node %r: %r=%r but the right side %r is %r" % (x, left, l, right, r)
    return None


def eq_args(v):
    a = args(v, True, len(v.layers[0]) > 1 if v.layers else False)
    if a is None or len(a["layers"]) > 2:
        return None
    if len(a["layers"]) == 1:
        a["n"] = v.rng.choice([3, 3, 4, 4, 4, 4, 4, 5]) if len(v.nodes) > 4 and not v.cfg.get("heavy") else min(a["n"], 4)
    a["_counts"] = count(v, a)
    return a


def independent(P, n, a):
    """A maximal set of linearly independent equations, and as many orbits."""
    import numpy
    from pymnet import graphlets as G
    bliss.reset(*a["solver"])
    inds, eqs = G.independent_equations(a["n"], a["n_l"], a["layers"], **allowed(a))
    cols = sorted(set(o for k in eqs for o in eqs[k]))
    rank = lambda ks: int(numpy.linalg.matrix_rank(numpy.array([[eqs[k].get(o, 0) for o in cols] for k in ks]))) if ks else 0
    if not set(inds) <= set(eqs):
        return "independent equations %r that do not exist" % (set(inds) - set(eqs))
    if rank(list(inds)) != len(inds):
        return "%d equations called independent have rank %d" % (len(inds), rank(list(inds)))
    if rank(list(eqs)) != len(inds):
        return "%d independent equations, but there are %d" % (len(inds), rank(list(eqs)))
    num = dict((o, i) for i, o in enumerate(cols))
    red = G.redundant_orbits(inds, eqs, num, cols)
    used = set(str(o) for k in inds for o in eqs[k])
    if len(red) != len(inds) or len(set(red)) != len(red) or not set(red) <= used:
        return "redundant orbits %r of %d equations" % (red, len(inds))
    return len(eqs)


def independent_ref(v, a):
    """The number of pairs of orbits that fit together."""
    orbits = {}
    layers = sorted(a["layers"], key=repr)
    for ls in itertools.combinations(layers, a["n_l"]):
        for k in range(2, a["n"] + 1):
            slots = [(i, j, l) for i in range(k) for j in range(i) for l in ls]
            for bits in range(1 << len(slots)):
                links = [(min(s[0], s[1]), max(s[0], s[1]), s[2]) for b, s in enumerate(slots) if bits >> b & 1]
                if len(links) >= k - 1 and connected(k, links):
                    orbits.setdefault(None if a["free"] else ls, {}).setdefault(k, set()).update(canon(k, ls, links, (), a["free"], r) for r in range(k))
    n = 0
    for by in orbits.values():
        os = [(k, f) for k in sorted(by) for f in sorted(by[k])]
        n += sum(1 for i, o in enumerate(os) for p in os[i:] if o[0] <= 3 and o[0] + p[0] - 1 <= a["n"])
    return n


indep_memo = {}


def independent_count(v, a):
    layers = tuple(sorted(a["layers"], key=repr)) if not a["free"] else len(a["layers"])
    key = (a["n"], a["n_l"], repr(layers), a["free"])
    if key not in indep_memo:
        indep_memo[key] = independent_ref(v, a)
    return indep_memo[key]


def indep_args(v):
    a = args(v)
    if a is None:
        return None
    # dependent equations begin with 5 nodes (one layer) or 4 (two layers)
    a["n"] = v.rng.choice([3, 4]) if a["n_l"] == 1 else 3
    if not v.cfg.get("heavy"):
        if a["n_l"] == 1 and len(a["layers"]) == 1:
            a["n"] = v.rng.choice([3, 4, 4, 4, 4, 5])
        elif a["n_l"] == 2 and len(a["layers"]) == 2 and v.rng.random() < 0.04:
            a["n"] = 4
    if a["n_l"] == 3 or (v.cfg.get("heavy") and len(a["layers"]) > 2):
        return None
    return a


def distance(P, n, a):
    from pymnet import graphlets as G
    ms = a["ms"]
    return [G.GCD(ms[0], ms[1]), G.GCD_matrix(ms)]


def distance_ref(v, a):
    d = lambda x, y: sum((x[i][j] - y[i][j]) ** 2 for i in range(len(x)) for j in range(i + 1, len(x))) ** 0.5
    return [d(a["ms"][0], a["ms"][1]), [[d(x, y) for y in a["ms"]] for x in a["ms"]]]


def dist_args(v):
    import numpy
    k = v.rng.randint(1, 4)
    return {"ms": [numpy.array([[round(v.rng.uniform(-1, 1), 3) for _ in range(k)] for _ in range(k)]) for _ in range(v.rng.randint(2, 3))]}


TABLE = [
    Measure("graphlets", graphlets, graphlets_ref, need=args),
    Measure("automorphism_orbits", orbits, lambda v, a: None, need=args),
    Measure("automorphism_orbits_nl", orbits_nl, lambda v, a: None, need=args),
    Measure("orbit_counts", counted, count, need=lambda v: args(v, True)),
    Measure("orbit_counts ", counted, count, need=lambda v: args(v, True)),
    Measure("orbit_name", names, names_ref, need=name_args),
    Measure("orbit_equations", equations, lambda v, a: None, need=eq_args),
    Measure("independent_equations", independent, independent_count, need=indep_args),
    Measure("GCD", distance, distance_ref, need=dist_args),
]
