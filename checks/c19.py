"""C19: degree distributions, densities and overlap degrees are those of the
network as it stands."""
import itertools
import sys

from checks import measure
from checks.measure import Measure, gen_ml, gen_mux

USES_TRACE = True
SHRINK = ("steps",)


def world(rng, tier):
    if rng.random() < 0.4:
        return gen_ml(rng, noedge=rng.choice([0, 0, 4]))
    return gen_mux(rng, noedge=rng.choice([0, 0, 0, 4]))


def generate(rng, tier):
    return measure.generate(sys.modules[__name__], rng, tier)


def execute(sc, ctx):
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    return measure.shrink(sys.modules[__name__], sc)


def deg(v, nl):
    return len(set(v.m.out(nl)) | set(v.m.inn(nl)))


def counts(ds):
    d = {}
    for x in ds:
        d[x] = d.get(x, 0) + 1
    return d


def layer_net(v, l):
    """Nodes and links of an intra-layer network."""
    return [n for n in v.nodes if v.mux.on(n, l)], v.mux.intra.get(l, {})


def layer_degs(v, l):
    ns, d = layer_net(v, l)
    return dict((n, len(set(y for x, y in d if x == n) | set(x for x, y in d if y == n))) for n in ns)


def lname(l):
    return l[0] if len(l) == 1 else l


def layer_density(v, l):
    ns, d = layer_net(v, l)
    if not ns:
        return 0
    return len(d) / float(len(ns) * (len(ns) - 1))


def density(v, a):
    n = len(v.nls)
    return len(v.m.edges()) / float(n * (n - 1) / (1 if v.directed else 2))


def overlaps(v, a):
    out = {}
    ls = v.layers[0]
    nb = dict((l, layer_net(v, (l,))[1]) for l in ls)
    for k in range(1, len(ls) + 1):
        for c in itertools.combinations(ls, k):
            out[frozenset(c)] = dict((n, sum(1 for m in v.nodes if set(l for l in ls if (n, m) in nb[l]) == set(c))) for n in v.nodes if any(v.mux.on(n, (l,)) for l in c))
    return out


def dg():
    from pymnet import diagnostics
    return diagnostics


anynet = lambda v: {} if v.nodes and all(v.layers) else None
amux = lambda v: {} if v.mux and v.nodes and all(v.layers) else None
TABLE = [
    Measure("degs", lambda P, n, a: dg().degs(n), lambda v, a: counts(deg(v, x) for x in v.nls), need=anynet),
    Measure("degs-nodes", lambda P, n, a: dg().degs(n, degstype="nodes"), lambda v, a: dict((v.name(x), deg(v, x)) for x in v.nls), need=anynet),
    Measure("density", lambda P, n, a: dg().density(n), density, need=lambda v: {} if v.aligned and len(v.nls) > 1 else None),
    Measure("multiplex_density", lambda P, n, a: dg().multiplex_density(n), lambda v, a: dict((lname(l), layer_density(v, l)) for l in v.mux.layer_tuples()),
            need=lambda v: {} if amux(v) is not None and all(len(layer_net(v, l)[0]) != 1 for l in v.mux.layer_tuples()) else None),
    Measure("multiplex_degs", lambda P, n, a: dg().multiplex_degs(n), lambda v, a: dict((lname(l), counts(layer_degs(v, l).values())) for l in v.mux.layer_tuples()), need=amux),
    Measure("multiplex_degs-nodes", lambda P, n, a: dg().multiplex_degs(n, degstype="nodes"), lambda v, a: dict((lname(l), layer_degs(v, l)) for l in v.mux.layer_tuples()), need=amux),
    Measure("overlap_degs", lambda P, n, a: dg().overlap_degs(n), overlaps, post=lambda r: dict((frozenset(k), d) for k, d in r.items()),
            need=lambda v: {} if amux(v) is not None and v.asp == 1 and not v.directed and v.no == 0 else None),
]
