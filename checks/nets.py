"""Small networks as plain data: generated once, built in any order, with any
labels, of either class.  Used by the checks whose subject is an operation on
a network rather than the history that built it."""
import itertools

from sim import labels
from checks.common import big, lay, link

WEIGHTS = {"one": [1], "int": [1, 2, 3], "float": [0.5, 1.5, 2.25, 3.0]}


def gen(rng, kind, nn=None, nlay=None, directed=None, aligned=None, weights=None, density=None, couplings=None, labelmodes=None, noedge=(0,)):
    """kind: mono, ml1, ml2, ml3, mux1, mux2, mux3"""
    asp = {"mono": 0, "ml1": 1, "ml2": 2, "ml3": 3, "mux1": 1, "mux2": 2, "mux3": 3}[kind]
    large = nn is None and asp < 2 and big(rng)
    nn = nn or (rng.randint(7, 16) if large else rng.randint(2, 6 if asp == 0 else (5 if asp == 1 else 3 if asp == 2 else 2)))
    nlay = nlay or (rng.randint(1, 3) if asp == 1 else 2)
    nl_per = [nlay if a == 0 else 2 for a in range(asp)]
    aligned = (rng.random() < 0.5 if aligned is None else aligned) or asp == 0
    directed = rng.random() < 0.25 if directed is None else directed
    density = density if density is not None else rng.choice([0.15, 0.4, 0.4, 0.7, 1.0]) * (0.5 if large else 1)
    weights = weights or rng.choice(["one", "int", "int", "float"])
    tuples = [list(t) for t in itertools.product(*[range(k) for k in nl_per])]
    nls = [[n] + t for n in range(nn) for t in tuples]
    if not aligned:
        nls = [x for x in nls if rng.random() < 0.75]
    no = rng.choice(list(noedge)) if len(noedge) > 1 else noedge[0]
    pool = WEIGHTS[weights] + ([0] if no != 0 else [])      # with another no-edge value, 0 is a weight
    edges = []
    for a, b in (itertools.permutations(nls, 2) if directed else itertools.combinations(nls, 2)):
        if kind.startswith("mux") and (a[1:] != b[1:] or a[0] == b[0]):
            continue
        d = density
        if kind.startswith("ml") and a[1:] != b[1:]:
            d = density * 0.4
        if rng.random() < d:
            edges.append([a, b, rng.choice(pool)])
    sp = {"kind": kind, "aspects": asp, "directed": directed, "aligned": aligned, "nn": nn, "nlay": nl_per, "nls": nls,
          "edges": edges, "labels": rng.choice(labelmodes or labels.MODES), "salt": rng.getrandbits(30)}
    if no != 0:
        sp["noedge"] = no
    if kind.startswith("mux"):
        sp["couplings"] = couplings or [rng.choice([["none", 1.0], ["categorical", 1.0], ["categorical", 1.0], ["categorical", 2.0], ["ordinal", 1.0], ["net", 0.5]]) for _ in range(asp)]
    return sp


def labelled(sp):
    node, layer = labels.make(sp["labels"], sp["salt"])
    if any(c[0] == "ordinal" for c in sp.get("couplings", ())):
        layer = labels.ordinal_layer(sp["salt"])
    return node, layer


def tup(x, node, layer):
    return (node(x[0]),) + tuple(layer(v, a + 1) for a, v in enumerate(x[1:]))


def coupling_net(pymnet, sp, a, w, layer, rng=None):
    """A chain of layers as a coupling network."""
    cn = pymnet.MultilayerNetwork(aspects=0)
    es = [(layer(i, a + 1), layer(i + 1, a + 1)) for i in range(sp["nlay"][a] - 1)]
    ls = [layer(i, a + 1) for i in range(sp["nlay"][a])]
    if rng:
        rng.shuffle(es)
        rng.shuffle(ls)
    for l in ls:
        cn.add_node(l)
    for x, y in es:
        cn[x, y] = w
    return cn


def empty(pymnet, sp, layer, rng=None):
    if sp["kind"].startswith("mux"):
        cpl = []
        for a, c in enumerate(sp["couplings"]):
            cpl.append(coupling_net(pymnet, sp, a, c[1], layer, rng) if c[0] == "net" else (c[0] if c[0] == "none" else (c[0], c[1])))
        return pymnet.MultiplexNetwork(couplings=cpl, directed=sp["directed"], fullyInterconnected=sp["aligned"], noEdge=sp.get("noedge", 0))
    return pymnet.MultilayerNetwork(aspects=sp["aspects"], directed=sp["directed"], fullyInterconnected=sp["aligned"], noEdge=sp.get("noedge", 0))


def build(pymnet, sp, rng=None, node=None, layer=None, junk=0):
    """The network; rng shuffles the build order.  junk: links written and
    removed again on the way."""
    if node is None:
        node, layer = labelled(sp)
    net = empty(pymnet, sp, layer, rng)
    steps = [("n", n) for n in range(sp["nn"])]
    for a, k in enumerate(sp["nlay"]):
        steps += [("l", v, a + 1) for v in range(k)]
    if not sp["aligned"]:
        steps += [("nl", x) for x in sp["nls"]]
    es = [("e",) + tuple(e) for e in sp["edges"]]
    if rng is not None:
        rng.shuffle(steps)
        rng.shuffle(es)
        if rng.random() < 0.3:
            steps = steps + es
            rng.shuffle(steps)
            es = []
        if not sp["directed"]:
            es = [e if rng.random() < 0.5 else ("e", e[2], e[1], e[3]) for e in es]
        have = {}
        for e in sp["edges"]:
            have[repr((e[0], e[1]))] = 1
            if not sp["directed"]:
                have[repr((e[1], e[0]))] = 1
        js = []
        for _ in range(junk):
            x, y = rng.choice(sp["nls"] or [[0]]), rng.choice(sp["nls"] or [[0]])
            if len(x) != len(y) or x == y or repr((x, y)) in have or (sp["kind"].startswith("mux") and (x[1:] != y[1:] or x[0] == y[0])):
                continue
            js.append((x, y))
        for x, y in js:
            es.insert(rng.randint(0, len(es)), ("j", x, y))
    for s in steps + es:
        if s[0] == "n":
            net.add_node(node(s[1]))
        elif s[0] == "l":
            net.add_layer(layer(s[1], s[2]), s[2])
        elif s[0] == "nl":
            t = tup(s[1], node, layer)
            net.add_node(t[0], layer=lay(t))
        elif s[0] == "e":
            net[link(tup(s[1], node, layer), tup(s[2], node, layer))] = s[3]
        else:
            k = link(tup(s[1], node, layer), tup(s[2], node, layer))
            net[k] = 99
            net[k] = net.noEdge
    return net


def shrink(sp):
    """Simpler specs."""
    for i in range(len(sp["edges"])):
        yield dict(sp, edges=sp["edges"][:i] + sp["edges"][i + 1:])
    if not sp["aligned"]:
        used = [e[0] for e in sp["edges"]] + [e[1] for e in sp["edges"]]
        for i, x in enumerate(sp["nls"]):
            if x not in used:
                yield dict(sp, nls=sp["nls"][:i] + sp["nls"][i + 1:])
    n = sp["nn"] - 1
    if n >= 1 and not any(n in (e[0][0], e[1][0]) for e in sp["edges"]):
        yield dict(sp, nn=n, nls=[x for x in sp["nls"] if x[0] != n])
    if sp["labels"] != "int":
        yield dict(sp, labels="int")
    if any(e[2] != 1 for e in sp["edges"]):
        yield dict(sp, edges=[[a, b, 1] for a, b, w in sp["edges"]])
