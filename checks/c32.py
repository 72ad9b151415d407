"""C32: shortest-path distances and forests are those of the network as it
stands."""
import itertools
import sys

from checks import measure
from checks.measure import Measure, Skip, gen_ml, gen_mux, net_edges

USES_TRACE = True
SHRINK = ("steps",)


def world(rng, tier):
    no = rng.choice([0, 0, 4])
    weights = rng.choice([[1], [1, 2], [1, 2, 0.5, 3, 1.5], [1, 7, 0.25]]) + ([0] if no and rng.random() < 0.5 else [])
    cfg = (gen_ml if rng.random() < 0.6 else gen_mux)(rng, noedge=no, weights=weights)
    if rng.random() < 0.1:
        cfg["labels"] = "mixed"
    return cfg


def generate(rng, tier):
    if rng.random() < 0.005:
        return {"chain": rng.choice([50, 1100, 2000]), "steps": [], "seed": rng.getrandbits(20)}
    return measure.generate(sys.modules[__name__], rng, tier)


def execute(sc, ctx):
    if "chain" in sc:
        return chain(sc, ctx)
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    if "chain" in sc:
        return iter([dict(sc, chain=n) for n in (10, sc["chain"] // 2, sc["chain"] - 100) if 1 < n < sc["chain"]])
    return measure.shrink(sys.modules[__name__], sc)


def chain(sc, ctx):
    """One long path through two layers."""
    import pymnet as P
    n = sc["chain"]
    net = P.MultilayerNetwork(aspects=1, directed=sc["seed"] % 2 == 0)
    es = {}
    for i in range(n - 1):
        a, b, w = (i, i * i % 3 % 2), (i + 1, (i + 1) * (i + 1) % 3 % 2), 1 + (i * 7 + sc["seed"]) % 3
        net[a][b] = w
        es[(a, b)] = w
    d, at = {(0,): 0}, 0
    for (a, b), w in sorted(es.items()):
        at += w
        d[(b[0],)] = at
    got = post(ctx.call("dijkstra_mlayer_prune", dg().dijkstra_mlayer_prune, net, [(0, None)], [1]))
    ctx.check(got == (d, es), "dijkstra_mlayer_prune", lambda: "a chain of %d nodes: %d distances, %d links in the forest" % (n, len(got[0]), len(got[1])))
    ctx.hit("long_chain")
    ctx.emit("chain", n)
    ctx.steps += 1
    ctx.nontrivial = True


def distances(v, sources):
    """Bellman-Ford on the model."""
    d = dict((s, 0) for s in sources)
    for _ in range(len(v.nls) + 1):
        for (a, b), w in v.m.e.items():
            if a in d and (b not in d or d[a] + w < d[b]):
                d[b] = d[a] + w
    return d


def forest(v, d):
    return dict(((a, b), w) for (a, b), w in v.m.e.items() if a in d and d[a] + w == d[b])


def no_loops(es):
    """Every source is marked with a link to itself; loops are not paths."""
    return dict((e, w) for e, w in es.items() if e[0] != e[1])


def tup(x, asp):
    return (x,) if asp == 0 else tuple(x)


def sources(v):
    if not v.nls:
        return None
    k = v.rng.choice([1, 1, 1, 2, 3])
    ss = [v.rng.choice(v.nls) for _ in range(k)]
    return {"sources": [v.name(s) for s in ss], "form": v.rng.choice(["list", "list", "tuple", "set", "iterator"])}


def given(a):
    s = a["sources"]
    return {"list": list, "tuple": tuple, "set": set, "iterator": iter}[a["form"]](s)


def dijkstra(v, a):
    d = distances(v, [tup(s, v.asp) for s in a["sources"]])
    return dict((v.name(x), y) for x, y in d.items()), no_loops(forest(v, d))


def prune_args(v):
    if v.asp == 0 or not v.nls or not v.aligned:
        return None
    free = [k for k in range(v.asp + 1) if v.rng.random() < 0.5] or [v.rng.randrange(v.asp + 1)]
    if len(free) == v.asp + 1:
        free = free[1:]
    ss = []
    for _ in range(v.rng.choice([1, 1, 2])):
        s = v.rng.choice(v.nls)
        ss.append(tuple(None if k in free else x for k, x in enumerate(s)))
    return {"sources": ss, "free": free}


def prune(v, a):
    free = a["free"]
    start = [x for x in v.nls if any(all(k in free or x[k] == s[k] for k in range(v.asp + 1)) for s in a["sources"]) and (v.m.out(x) or v.m.inn(x))]
    d = distances(v, start)
    f = no_loops(forest(v, d))
    cut = lambda x: tuple(y for k, y in enumerate(x) if k not in free)
    best = {}
    for x, y in d.items():
        if cut(x) not in best or y < best[cut(x)]:
            best[cut(x)] = y
    keep = set(x for x in d if d[x] == best[cut(x)])
    todo = list(keep)
    out = {}
    while todo:
        x = todo.pop()
        for (p, q), w in f.items():
            if q == x:
                out[(p, q)] = w
                if p not in keep:
                    keep.add(p)
                    todo.append(p)
    return best, out


def dg():
    from pymnet import diagnostics
    return diagnostics


def post(r):
    d, f = r
    if not f.directed:
        return "the forest is not directed"
    return dict(d), no_loops(net_edges(f))


TABLE = [
    Measure("dijkstra", lambda P, n, a: dg().dijkstra(n, given(a)), dijkstra, post=post, need=sources),
    Measure("dijkstra_mlayer_prune", lambda P, n, a: dg().dijkstra_mlayer_prune(n, list(a["sources"]), list(a["free"])), prune, post=post, need=prune_args),
]
