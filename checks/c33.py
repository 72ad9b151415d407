"""C33: supra-adjacency matrices and the modularity view are those of the
network as it stands."""
import itertools
import sys

from checks import measure
from checks.common import link
from checks.measure import Measure, gen_ml, gen_mux

USES_TRACE = True
SHRINK = ("steps",)


def world(rng, tier):
    weights = rng.choice([[1], [1, 2, 0.5, 3, 1.5], [-2, 5, 1e-3, 1]])
    if rng.random() < 0.5:
        return gen_ml(rng, weights=weights)
    return gen_mux(rng, weights=weights)


def generate(rng, tier):
    return measure.generate(sys.modules[__name__], rng, tier)


def execute(sc, ctx):
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    return measure.shrink(sys.modules[__name__], sc)


def supra_ref(v, a):
    """(rows, links)"""
    uni = [tuple(x) for x in itertools.product(v.nodes, *v.layers)]
    e = dict((k, float(w)) for k, w in v.m.e.items() if w != 0 and (a["couplings"] or k[0][1:] == k[1][1:]))
    if v.asp == 0:      # the diagonal of a plain network is not used
        e = dict((k, w) for k, w in e.items() if k[0] != k[1])
    return sorted(map(repr, uni)), e


def supra_post(r):
    import numpy
    m, nls = r
    m = numpy.asarray(m)
    if m.shape != (len(nls), len(nls)):
        return "%r for %d node-layers" % (m.shape, len(nls))
    nls = [x if isinstance(x, tuple) else (x,) for x in nls]
    return sorted(map(repr, nls)), dict(((a, b), float(m[i, j])) for i, a in enumerate(nls) for j, b in enumerate(nls) if m[i, j] != 0)


def supra(P, n, a):
    if a["wrap"]:
        from pymnet import transforms
        return transforms.supra_adjacency_matrix(n) if a["couplings"] and a["default"] else transforms.supra_adjacency_matrix(n, includeCouplings=a["couplings"])
    return n.get_supra_adjacency_matrix() if a["couplings"] and a["default"] else n.get_supra_adjacency_matrix(includeCouplings=a["couplings"])


def mod_args(v):
    if v.asp == 0 or v.directed or not v.aligned or len(v.nls) > 16 or not v.nls:
        return None
    for l in itertools.product(*v.layers):      # the null model needs links in every layer
        if sum(w for (x, y), w in v.m.e.items() if x[1:] == l and y[1:] == l) == 0:
            return None
    if sum(v.m.e.values()) == 0:
        return None
    return {"gamma": v.rng.choice([1.0, 1.0, 0.5, 2])}


def mod_ref(v, a):
    k, tot = {}, {}
    for (x, y), w in v.m.e.items():
        if x[1:] == y[1:]:
            k[x] = k.get(x, 0) + w
            tot[x[1:]] = tot.get(x[1:], 0) + w
    out = {}
    for x in v.nls:
        for y in v.nls:
            b = v.m.get(x, y)
            if x[1:] == y[1:]:
                b -= a["gamma"] * k.get(x, 0) * k.get(y, 0) / float(tot[x[1:]])
            out[(x, y)] = b
    return out


def mod(P, n, a):
    from pymnet.net import ModularityMultilayerNetworkView
    view = ModularityMultilayerNetworkView(n, **({} if a["gamma"] == 1.0 else {"gamma": a["gamma"]}))
    nls = sorted(n.iter_node_layers(), key=repr)
    return dict(((x, y), view[link(x, y)]) for x in nls for y in nls)


TABLE = [
    Measure("supra", supra, supra_ref, post=supra_post, need=lambda v: {"couplings": v.rng.random() < 0.6, "default": v.rng.random() < 0.5, "wrap": v.rng.random() < 0.4} if v.nodes and all(v.layers) else None),
    Measure("modularity", mod, mod_ref, need=mod_args),
]
