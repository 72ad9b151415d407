"""C30: clustering coefficients are those of the network as it stands."""
import itertools
import sys

from checks import measure
from checks.common import big
from checks.measure import Measure, Skip, bag, gen_ml, gen_mux

USES_TRACE = True
SHRINK = ("steps",)
UNIT = [1]


def world(rng, tier):
    weights = rng.choice([UNIT, [1, 2, 0.5, 3, 1.5]])
    if rng.random() < 0.25:
        cfg = gen_ml(rng, aspects=0, directed=False, noedge=rng.choice([0, 0, 4]), weights=weights, selfloops=False, nn=rng.randint(7, 12) if big(rng) else rng.randint(3, 6))
        if rng.random() < 0.1:
            cfg["labels"] = "mixed"
        return cfg
    return gen_mux(rng, aspects=1, directed=False, aligned=rng.random() < 0.7, couplings=[["categorical", 1.0]] * 5 + [["none", 1.0]],
                   weights=UNIT if rng.random() < 0.65 else weights, noedge=rng.choice([0, 0, 0, 0, 4]), nn=rng.randint(6, 9) if big(rng) else rng.randint(3, 5), nlay=rng.randint(1, 4))


def generate(rng, tier):
    sc = measure.generate(sys.modules[__name__], rng, tier)
    for w, cfg in enumerate(sc["worlds"]):      # triangles need links
        sc["steps"][:0] = [["do", w, o] for o in measure.gen_ops(rng, cfg, rng.choice([0, 10, 30, 60]))]
    return sc


def execute(sc, ctx):
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    return measure.shrink(sys.modules[__name__], sc)


# -- plain networks ---------------------------------------------------------
def nbs(v, i):
    """Neighbours of a node of a plain network with weights."""
    return dict((x[0], w) for x, w in v.nb((i,)).items())


def triangles(v, i):
    """(w_ij, w_ih, w_jh) of every triangle once."""
    ns = nbs(v, i)
    return [(ns[j], ns[h], v.m.e[((j,), (h,))]) for j, h in itertools.combinations(sorted(ns, key=repr), 2) if ((j,), (h,)) in v.m.e]


def pairs(v, i):
    ns = nbs(v, i)
    return [(ns[j], ns[h]) for j, h in itertools.combinations(sorted(ns, key=repr), 2)]


def wmax(v):
    return max(v.m.e.values())


def mono(v):
    if v.asp != 0 or not v.m.e:
        return None
    return {"node": v.rng.choice(v.nodes), "undef": v.rng.choice([0.0, 0.0, None, -1])}


def un(a):
    return {} if a["undef"] == 0.0 else {"undefReturn": a["undef"]}


def lcc(v, a):
    p = pairs(v, a["node"])
    return len(triangles(v, a["node"])) / float(len(p)) if p else a["undef"]


def zhang(v, a):
    p = pairs(v, a["node"])
    return sum(x * y * z for x, y, z in triangles(v, a["node"])) / float(sum(x * y for x, y in p)) / wmax(v) if p else a["undef"]


def gzhang(v, a):
    den = sum(x * y for n in v.nodes for x, y in pairs(v, n))
    return sum(x * y * z for n in v.nodes for x, y, z in triangles(v, n)) / float(den) / wmax(v) if den else None


def onnela(v, a):
    k = len(nbs(v, a["node"]))
    return 2 * sum((x * y * z) ** (1 / 3.) for x, y, z in triangles(v, a["node"])) / float(k * (k - 1)) / wmax(v) if k > 1 else a["undef"]


def barrat(v, a):
    ns = nbs(v, a["node"])
    return sum(x + y for x, y, z in triangles(v, a["node"])) / float((len(ns) - 1) * sum(ns.values())) if len(ns) > 1 else a["undef"]


def mean_lcc(v, a):
    xs = [lcc(v, {"node": n, "undef": None}) for n in v.nodes]
    xs = [x for x in xs if x is not None]
    return sum(xs) / float(len(xs)) if xs else None


# -- multiplex networks -----------------------------------------------------
def steps_of(v):
    """Links within layers, couplings, and all pairs within layers."""
    if "steps" not in v.cache:
        A = dict((x, set(y for y in v.nb(x) if y[1] == x[1])) for x in v.nls)
        C = dict((x, set(y for y in v.nb(x) if y[1] != x[1])) for x in v.nls)
        on = {}
        for n, l in v.nls:
            on.setdefault(l, set()).add((n, l))
        v.cache["steps"] = {"a": A, "c": C, "f": dict((x, on[x[1]] - set([x])) for x in v.nls)}
    return v.cache["steps"]


def closed(v, x, word):
    """Closed walks from x that take these steps."""
    cur = {x: 1}
    for s in word:
        new = {}
        for y, k in cur.items():
            for z in steps_of(v)[s][y]:
                new[z] = new.get(z, 0) + k
        cur = new
    return cur.get(x, 0)


def opened(v, x, word):
    """Walks from x that end elsewhere."""
    cur = {x: 1}
    for s in word:
        new = {}
        for y, k in cur.items():
            for z in steps_of(v)[s][y]:
                new[z] = new.get(z, 0) + k
        cur = new
    return sum(k for y, k in cur.items() if y != x)


WORDS = ["aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac"]


def cycles(v, nls):
    return tuple(sum(closed(v, x, w) for x in nls) for w in WORDS)


def mux1(v, unit=False, aligned=False, coupled=False, zero=False, two=False):
    """One-aspect multiplex networks; requirements of the single functions."""
    if not v.mux or not v.nls or not v.layers[0]:
        return None
    if unit and any(w != 1 for (x, y), w in v.m.e.items()):
        return None
    if coupled and v.mux.couplings[0][0] != "categorical":
        return None
    if (aligned and not v.aligned) or (zero and v.no != 0) or (two and len(v.nodes) < 2):
        return None
    n, l = v.rng.choice(v.nls)
    return {"node": n, "layer": l, "undef": v.rng.choice([0.0, 0.0, None, -1])}


def walks(v, **k):
    a = mux1(v, coupled=True, unit=True, **k)
    if a is None:
        return None
    a["w"] = v.rng.choice([None, None, (0.25, 0.75, None), (1, 0.5, None), (0.2, 0.3, 0.5), (1 / 3., 1 / 3., 1 / 3.), (1, 0, 0), (0, 0.5, 0.5), (0, 0, 1)])
    a["vector"] = v.rng.random() < 0.25
    a["anet"] = v.aligned and v.rng.random() < 0.4
    a["which"] = v.rng.choice(["all", "node", "both", "both", "layer"])
    return a


def ratio(t, d):
    return t / float(d) if d else 0


def combine(c, a, default):
    """The three coefficients put together."""
    t1, t2, t3, d1, d2, d3 = c[0], sum(c[1:4]), c[4], c[5], sum(c[6:9]), c[9]
    if a["vector"]:
        return (ratio(t1, d1), ratio(t2, d2), ratio(t3, d3))
    w1, w2, w3 = a["w"] or default
    if w3 is not None:
        return w1 * ratio(t1, d1) + w2 * ratio(t2, d2) + w3 * ratio(t3, d3)
    return ratio(t1 * w1 ** 3 + t2 * w1 * w2 ** 2 + t3 * w2 ** 3, d1 * w1 ** 3 + d2 * w1 * w2 ** 2 + d3 * w2 ** 3)


AW = (0.5, 0.5, None)
THIRDS = (1 / 3., 1 / 3., 1 / 3.)


def kw(a, *names):
    k = {}
    if a["w"] is not None:
        k.update(w1=a["w"][0], w2=a["w"][1], w3=a["w"][2])
    if "vector" in names and a["vector"]:
        k["returnCVector"] = True
    return k


def anet_of(P, n, a):
    from pymnet import transforms
    return {"anet": transforms.aggregate(n, 1)} if a["anet"] else {}


def some_cycles(v, a):
    x = (a["node"], a["layer"])
    if a["which"] == "all":
        return cycles(v, v.nls)
    if a["which"] == "node":
        return cycles(v, [y for y in v.nls if y[0] == x[0]])
    if a["which"] == "layer":
        return cycles(v, [y for y in v.nls if y[1] == x[1]])
    return cycles(v, [x])


def call_cycles(P, n, a):
    k = anet_of(P, n, a)
    if a["which"] in ("node", "both"):
        k["node"] = a["node"]
    if a["which"] in ("layer", "both"):
        k["layer"] = a["layer"]
    return cc().elementary_cycles(n, **k)


def avg_lcc(v, a):
    xs = [combine(cycles(v, [x]), a, AW) for x in v.nls]
    if a["vector"]:
        return tuple(sum(x[k] for x in xs) / float(len(xs)) for k in (0, 1, 2))
    return sum(xs) / float(len(xs))


def sep(v, a):
    c = cycles(v, [x for x in v.nls if x[0] == a["node"]])
    t, d = (c[0], sum(c[1:4]), c[4]), (c[5], sum(c[6:9]), c[9])
    w = a["w"] if a["w"] and a["w"][2] is not None else THIRDS
    if any(w[k] > 0 and not d[k] for k in (0, 1, 2)):
        return a["undef"]
    return sum(w[k] * ratio(t[k], d[k]) for k in (0, 1, 2))


def kw3(a):
    return dict(w1=a["w"][0], w2=a["w"][1], w3=a["w"][2]) if a["w"] and a["w"][2] is not None else {}


def moreno2_sep(v, a):
    c = cycles(v, v.nls)
    c = (c[0], 2 * c[1], 2 * c[2], c[3], 2 * c[4], c[5], 2 * c[6], 2 * c[7], c[8], 2 * c[9])
    return combine(c, dict(a, vector=False), THIRDS)


def words(v, ws, how):
    return sum(how(v, x, w) for w in ws for x in v.nls)


P21 = ["aacac", "cacaa", "acaac", "caaca", "acaca"]
P111 = ["acacac", "cacaca"]


def moreno(v, a):
    c = [(words(v, ["aaa"], closed), words(v, ["aa"], opened)), (words(v, P21, closed), words(v, ["aac", "caca", "aca", "caac", "acac"], opened)),
         (words(v, P111, closed), words(v, ["acac", "cacac"], opened))]
    if not all(d for n, d in c):
        raise Skip()
    w = a["w"] if a["w"] and a["w"][2] is not None else THIRDS
    return sum(w[k] * c[k][0] / float(c[k][1]) for k in (0, 1, 2))


def moreno2(v, a):
    c = [(words(v, ["aaa"], closed), words(v, ["afa"], closed)), (words(v, P21, closed), words(v, ["afcac", "cacfa", "acfac", "cafca", "acfca"], closed)),
         (words(v, P111, closed), words(v, ["acfcac", "cacfca"], closed))]
    if not c[0][1] or not c[1][1]:
        raise Skip()
    w = a["w"] if a["w"] and a["w"][2] is not None else THIRDS
    return sum(w[k] * ratio(*c[k]) for k in (0, 1, 2))


def vectors(v, a):
    rows = []
    for x in v.nls:
        c = cycles(v, [x])
        rows.append((c[0], c[5], sum(c[1:4]), sum(c[6:9]), c[4], c[9]))
    return bag(rows)


def by_node_layer(r):
    return bag(tuple(float(x) for x in t) for t in zip(*r))


def floats(r):
    return tuple(map(float, r)) if isinstance(r, tuple) else float(r)


# weights within layers
def w(v, i, j, l):
    return v.m.e.get(((i, l), (j, l)), 0)


def layer_counts(v, n):
    """Triangles and pairs of neighbours of a node in every layer."""
    out = []
    for l in v.layers[0]:
        ns = [x[0] for x in v.nb((n, l)) if x[1] == l]
        out.append((sum(1 for i, j in itertools.combinations(ns, 2) if ((i, l), (j, l)) in v.m.e), len(ns) * (len(ns) - 1) / 2.))
    return out


def layers_avg(v, a):
    c = layer_counts(v, a["node"])
    if not all(d for n, d in c):
        raise Skip()
    return sum(n / d for n, d in c) / len(c)


def layers_wavg(v, a):
    c = layer_counts(v, a["node"])
    if not sum(d for n, d in c):
        raise Skip()
    return sum(n for n, d in c) / float(sum(d for n, d in c))


def super_nc(v, a):
    c = [x for n in v.nodes for x in layer_counts(v, n)]
    den = sum(d for n, d in c)
    return sum(n for n, d in c) / float(den) if den else None


def super_graph(v, a):
    num = den = 0
    for x in v.nls:
        ns = sorted(v.nb(x), key=repr)
        num += sum(1 for p, q in itertools.combinations(ns, 2) if (p, q) in v.m.e)
        den += len(ns) * (len(ns) - 1) / 2.
    return num / float(den) if den else None


def barrett(v, a, short=True):
    i, L, N = a["node"], v.layers[0], v.nodes
    tot = lambda p, q: sum(w(v, p, q, l) for l in L)
    if short and sum(1 for j in N if tot(i, j)) < 2:
        return a["undef"]
    num = sum(tot(i, j) * tot(i, h) * tot(j, h) for j in N for h in N)
    den = sum(tot(i, j) * sum(max(w(v, i, h, l), w(v, j, h, l)) for l in L) for j in N for h in N)
    return num / float(den) if den else a["undef"]


def brodka_args(v):
    a = mux1(v, zero=True)
    if a is None:
        return None
    a["threshold"] = v.rng.choice([1, 1, 2, 3, "all"])
    a["anet"] = v.aligned and all(x == 1 for (p, q), x in v.m.e.items()) and v.rng.random() < 0.5
    return a


def brodka(v, a):
    u, L = a["node"], v.layers[0]
    t = len(L) if a["threshold"] == "all" else a["threshold"]
    ns = [n for n in v.nodes if sum(1 for l in L if ((u, l), (n, l)) in v.m.e) >= t]
    return sum(w(v, h, x, l) + w(v, x, h, l) for l in L for x in ns for h in ns) / float(2 * len(ns) * len(L)) if ns else 0.0


def battiston(v, a, second):
    u, L = a["node"], v.layers[0]
    if len(L) < (3 if second else 2):
        if second:
            return a["undef"]
        raise Skip()
    has = lambda p, q, l: ((p, l), (q, l)) in v.m.e
    num = den = 0
    for al in L:
        for be in L:
            if (be != al) != bool(second):
                continue
            for x in v.nodes:
                for h in v.nodes:
                    if has(u, x, al) and has(h, u, be):
                        den += 1
                        num += sum(1 for g in L if g != al and g != be and has(x, h, g))
    return num / float(den) / (len(L) - (2 if second else 1)) if den else a["undef"]


def criado(v, a):
    u = a["node"]
    nu = set(y[0] for x in v.nls if x[0] == u for y in v.nb(x) if y[1] == x[1])
    s = d = 0
    for l in v.layers[0]:
        g = set(n for n in nu if (n, l) in v.nls)
        s += sum(1 for p in g for q in g if ((p, l), (q, l)) in v.m.e)
        d += len(g) * (len(g) - 1)
    return s / float(d) if d else a["undef"]


def contraction(v, a):
    """Tensor contractions; o: links within layers, else couplings too."""
    N = [(n, l) for n in v.nodes for l in v.layers[0]]
    full, o = a["full"], a["o"]
    if o:
        tot = {}
        for (p, q), x in v.m.e.items():
            if p[1] == q[1]:
                tot[(p[0], q[0])] = tot.get((p[0], q[0]), 0) + x
        K, lay = v.nodes, len(v.layers[0])
    else:
        tot, K, lay = v.m.e, N, 1
    g = lambda p, q: tot.get((p, q), 0)
    num = sum(g(p, q) * g(q, r) * g(r, p) for p in K for q in K for r in K)
    if full:
        den = sum(g(p, q) * g(r, p) for p in K for q in K for r in K if q != r)
    else:
        den = sum(g(p, q) * g(q, r) for p in K for q in K for r in K if r != p)
    den *= lay
    if o is True and not full:      # here the returning pairs are subtracted once, and not for every layer
        den += (lay - 1) * sum(g(p, q) * g(q, p) for p in K for q in K)
    return num / float(den) if den else None


def con_args(**x):
    def need(v):
        a = mux1(v, zero=True, aligned=True)
        if a is None or len(v.nls) > 12:
            return None
        return dict(x)
    return need


def cc():
    from pymnet import cc
    return cc


def M(name, args, ref, need, post=None, fn=None):
    TABLE.append(Measure(name, fn or (lambda P, n, a: getattr(cc(), name)(n, *args(P, n, a)[0], **args(P, n, a)[1])), ref, post=post, need=need))


def agg(P, n):
    from pymnet import transforms
    return transforms.aggregate(n, 1)


def sortable(v):
    """The rows of a supra-adjacency matrix are in the order of the labels."""
    return all(len(set(isinstance(x, str) for x in s)) <= 1 for s in [v.nodes] + v.layers)


TABLE = []
node_un = lambda P, n, a: ((a["node"],), un(a))
for nm, ref in (("lcc", lcc), ("cc_zhang", zhang), ("cc_onnela", onnela), ("cc_barrat", barrat)):
    M(nm, node_un, ref, mono)
M("cc_num_den", lambda P, n, a: ((a["node"],), {}), lambda v, a: (len(triangles(v, a["node"])), len(pairs(v, a["node"]))), mono)
M("gcc_zhang", lambda P, n, a: ((), {}), gzhang, mono)
M("gcc_from_lcc", lambda P, n, a: ((cc().lcc,), {}), mean_lcc, mono)
M("elementary_cycles", None, some_cycles, walks, fn=call_cycles)
M("elementary_cycles again", None, some_cycles, lambda v: walks(v, aligned=True), fn=call_cycles)
M("lcc_aw", lambda P, n, a: ((a["node"], a["layer"]), kw(a, "vector")), lambda v, a: combine(cycles(v, [(a["node"], a["layer"])]), a, AW), walks)
M("avg_lcc_aw", lambda P, n, a: ((), kw(a, "vector")), avg_lcc, walks)
M("sncc_aw", lambda P, n, a: ((a["node"],), dict(kw(a, "vector"), **anet_of(P, n, a))), lambda v, a: combine(cycles(v, [x for x in v.nls if x[0] == a["node"]]), a, AW), walks)
M("sncc_aw_layercost", lambda P, n, a: ((a["node"],), dict(a=a["w"][0], b=a["w"][1]) if a["w"] else {}),
  lambda v, a: combine(cycles(v, [x for x in v.nls if x[0] == a["node"]]), dict(a, vector=False, w=(a["w"] or AW)[:2] + (None,)), AW), walks)
M("sncc_aw_seplayers", lambda P, n, a: ((a["node"],), dict(kw3(a), undefined=a["undef"])), sep, walks)
M("gcc_aw", lambda P, n, a: ((), kw(a, "vector")), lambda v, a: combine(cycles(v, v.nls), a, AW), walks)
M("gcc_moreno2_seplayers", lambda P, n, a: ((), kw(a)), moreno2_sep, walks)
full_two = lambda v: walks(v, aligned=True, two=True, zero=True) if sortable(v) else None
M("cc_cycle_vector_adj", lambda P, n, a: ((a["node"], a["layer"]), {}), lambda v, a: cycles(v, [(a["node"], a["layer"])]), full_two, post=floats)
M("gcc_aw_vector_adj", lambda P, n, a: ((), {}), vectors, full_two, post=by_node_layer)
M("cc_aw_vector", lambda P, n, a: ((), {}), vectors, lambda v: walks(v, aligned=True), post=by_node_layer)
M("gcc_aw_seplayers_adj", lambda P, n, a: ((), dict(kw3(a), **({"returnCVector": True} if a["vector"] else {}))),
  lambda v, a: combine(cycles(v, v.nls), dict(a, w=a["w"] if a["w"] and a["w"][2] is not None else None), THIRDS), full_two, post=floats)
M("gcc_moreno", lambda P, n, a: ((), kw3(a)), moreno, full_two, post=floats)
M("gcc_moreno2", lambda P, n, a: ((), kw3(a)), moreno2, full_two, post=floats)
M("cc_sequence", lambda P, n, a: ((a["node"],), {}), lambda v, a: bag((float(x), float(y)) for x, y in layer_counts(v, a["node"])), mux1, post=by_node_layer)
M("cc_layers_avg", lambda P, n, a: ((a["node"],), {}), layers_avg, mux1)
M("cc_layers_wavg", lambda P, n, a: ((a["node"],), {}), layers_wavg, mux1)
M("gcc_super_graph_no_couplings", lambda P, n, a: ((), {}), super_nc, mux1)
M("gcc_super_graph", lambda P, n, a: ((), {}), super_graph, mux1)
zero = lambda v: mux1(v, zero=True)
M("cc_barrett", lambda P, n, a: ((a["node"], agg(P, n)), un(a)), barrett, zero)
M("cc_barrett_optimized", lambda P, n, a: ((a["node"], agg(P, n)), un(a)), barrett, zero)
M("cc_barrett_explicit", lambda P, n, a: ((a["node"],), un(a)), lambda v, a: barrett(v, a, False), zero)
M("lcc_brodka", lambda P, n, a: ((a["node"],), dict(anet_of(P, n, a), **({} if a["threshold"] == 1 else {"threshold": a["threshold"]}))), brodka, brodka_args)
M("lcc_battiston1", node_un, lambda v, a: battiston(v, a, 0), lambda v: mux1(v, aligned=True))
M("lcc_battiston2", node_un, lambda v, a: battiston(v, a, 1), lambda v: mux1(v, aligned=True))
M("lcc_criado", lambda P, n, a: ((a["node"],), dict(un(a), **anet_of(P, n, a))), criado, lambda v: dict(mux1(v), anet=v.rng.random() < 0.4) if mux1(v) else None)
M("gcc_contraction_m", lambda P, n, a: ((), {}), contraction, con_args(o=False, full=False))
M("gcc_contraction_m_ct", lambda P, n, a: ((), {}), contraction, con_args(o=False, full=False))
M("gcc_contraction_m_full", lambda P, n, a: ((), {}), contraction, con_args(o=False, full=True))
M("gcc_contraction_o", lambda P, n, a: ((), {}), contraction, con_args(o=True, full=False))
M("gcc_contraction_o2", lambda P, n, a: ((), {}), contraction, con_args(o="ct", full=False))
M("gcc_contraction_o_full", lambda P, n, a: ((), {}), contraction, con_args(o=True, full=True))
