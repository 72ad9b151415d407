"""C07: random generators meet their specification for every random stream."""
import itertools

from sim import rand
from checks import c06, gens, nets
from checks.common import divergence, shrink_plan

USES_TRACE = True
SHRINK = ("calls",)


ILLEGAL = ["er_none", "er_both", "er_lists_both", "er_list_lengths_p", "er_list_lengths_m", "ser_none", "ser_both", "ser_many", "er_many", "part_lengths", "conf_type", "conf_type_mux"]


RANDOM = ["ser_p", "ser_m", "er_p", "er_m", "er_lists_p", "er_lists_m", "part", "ml", "ml_part", "shuffle"]
TRIALS = 400


def generate(rng, tier):
    if rng.random() < 0.02:
        L = rng.randint(1, 3)
        n = rng.randint(2, 5 if L < 3 else 4)
        lists = [[i for i in range(n) if rng.random() < 0.8] for _ in range(L)]
        for l in lists:
            rng.shuffle(l)
        return {"mode": "often", "seed": rng.getrandbits(40), "stream": "mt", "calls": [], "what": rng.choice(RANDOM), "n": n, "L": L, "lists": lists,
                "ps": [rng.choice([0.1, 0.3, 0.5, 0.7, 0.9]) for _ in range(L)], "fs": [rng.random() for _ in range(L)]}
    if rng.random() < 0.03:
        return {"mode": "illegal", "seed": rng.getrandbits(40), "stream": "mt", "calls": [], "what": rng.choice(ILLEGAL), "n": rng.randint(2, 8), "L": rng.randint(1, 3), "p": rng.choice([0.0, 0.5, 1.0])}
    return c06.generate(rng, tier, gens.gen_model)


def illegal(sc, ctx):
    """A specification that is missing, given twice or cannot be met is refused."""
    import pymnet as P
    from pymnet import models as M
    n, L, p, what = sc["n"], sc["L"], sc["p"], sc["what"]
    nodes = [list(range(n)) for _ in range(L)]
    many = n * (n - 1) // 2 + 1
    mono = P.MultilayerNetwork(aspects=0)
    calls = {
        "er_none": lambda: M.er(n),
        "er_both": lambda: M.er(n, p=p, edges=1),
        "er_lists_both": lambda: M.er(nodes, p=[p] * L, edges=[1] * L),
        "er_list_lengths_p": lambda: M.er(nodes, p=[p] * (L + 1)),
        "er_list_lengths_m": lambda: M.er(nodes, edges=[1] * (L + 1)),
        "ser_none": lambda: M.single_layer_er(mono, nodes[0]),
        "ser_both": lambda: M.single_layer_er(mono, nodes[0], p=p, edges=1),
        "ser_many": lambda: M.single_layer_er(mono, nodes[0], edges=many),
        "er_many": lambda: M.er(n, edges=[many] * L),
        "part_lengths": lambda: M.er_partially_interconnected(nodes, [p] * (L + 1)),
        "conf_type": lambda: M.single_layer_conf(mono, {0: 1, 1: 1}, degstype="node"),
        "conf_type_mux": lambda: M.conf({"a": {0: 1, 1: 1}}, degstype="node"),
    }
    rand.reset(sc["seed"], sc["stream"], 20000)
    ctx.steps += 1
    try:
        r = calls[what]()
    except rand.DrawBudget:
        ctx.fail("illegal-searched:" + what, "a request that cannot be met is searched for without end")
    except Exception as e:
        ctx.emit("refused", what, type(e).__name__)
    else:
        ctx.fail("illegal-answered:" + what, "an illegal request was answered with %r" % (r if r is None else sorted(map(repr, r.edges))[:20],))
    ctx.hit("refused:" + what)
    ctx.nontrivial = True


def pairs(xs):
    return [frozenset(c) for c in itertools.combinations(xs, 2)]


def often(sc, ctx):
    """How often is each link there, and each two of them?  The generator runs
    many times over one fair stream."""
    import pymnet as P
    from pymnet import models as M
    from pymnet import transforms as T
    from pymnet.sampling import creators as C
    n, L, ps, lists, what = sc["n"], sc["L"], sc["ps"], sc["lists"], sc["what"]
    nodes = list(range(n))

    def mono(**kw):
        net = P.MultilayerNetwork(aspects=0)
        M.single_layer_er(net, lists[0], **kw)
        return net

    if what in ("ser_p", "ser_m"):
        on = [lists[0]]
    elif what in ("er_p", "er_m"):
        on = [nodes] * L
    else:
        on = lists
    full = [len(pairs(o)) for o in on]
    ms = [int(f * (x + 1)) for f, x in zip(sc["fs"], full)]
    # link -> (probability, group it is drawn with, its size, drawn)
    odds = {}
    intra = lambda net: [(frozenset(e[:2]), l) for l in net.A for e in net.A[l].edges]
    if what in ("ser_p", "ser_m", "er_p", "er_m", "er_lists_p", "er_lists_m", "part"):
        for l, o in enumerate(on):
            for x in pairs(o):
                odds[x, l] = (ps[l], None, 0, 0) if what[-1] != "m" else (float(ms[l]) / full[l], l, full[l], ms[l])
        links = intra if what[0] != "s" else lambda net: [(frozenset(e[:2]), 0) for e in net.edges]
        make = {"ser_p": lambda: mono(p=ps[0]), "ser_m": lambda: mono(edges=ms[0]), "er_p": lambda: M.er(n, p=ps), "er_m": lambda: M.er(n, edges=ms),
                "er_lists_p": lambda: M.er(lists, p=ps), "er_lists_m": lambda: M.er(lists, edges=ms), "part": lambda: M.er_partially_interconnected(lists, ps)}[what]
    elif what in ("ml", "ml_part"):
        nls = [(x, l) for l in range(L) for x in (nodes if what == "ml" else lists[l])]
        for x in pairs(nls):
            a, b = x
            if what == "ml_part" or a[0] != b[0]:
                odds[x] = (ps[0], None, 0, 0)
        links = lambda net: [frozenset([(e[0], e[2]), (e[1], e[3])]) for e in net.edges]
        make = (lambda: M.er_multilayer(n, L, ps[0])) if what == "ml" else (lambda: C.er_multilayer_partially_interconnected(lists, ps[0]))
    else:
        # weights tell which node of a layer each node has become
        net = P.MultiplexNetwork(couplings=[("categorical", 1.0)])
        n = n if n > 2 else 3
        for l in range(L):
            net.add_layer(l)
            for i in range(n):
                net.A[l][i, i] = i + 1
        for l in range(L):
            for i in range(n):
                for j in range(n):
                    odds[i, j, l] = (1.0 / n, "shuffle", n, l)
        links = lambda new: [(int(e[2]) - 1, e[0], l) for l in new.A for e in new.A[l].edges]
        make = lambda: T.randomize_nodes_by_layer(net)

    both = lambda x, y: joint(odds, x, y)
    keys = sorted(odds, key=repr)
    place = dict((k, i) for i, k in enumerate(keys))
    one, two = [0] * len(keys), {}
    for t in range(TRIALS):
        rand.reset(sc["seed"] + 31 * t, "mt", 1000000)
        got = links(make())
        ctx.check(len(set(got)) == len(got) and all(x in place for x in got), "often:links:" + what, lambda: repr([x for x in got if x not in place][:5]))
        got = sorted(place[x] for x in got)
        for i, x in enumerate(got):
            one[x] += 1
            for y in got[i + 1:]:
                two[x, y] = two.get((x, y), 0) + 1
    for i, x in enumerate(keys):
        ctx.check(TRIALS * divergence(float(one[i]) / TRIALS, odds[x][0]) < 30, "often:one:" + what, lambda: "%r %d times of %d, probability %r" % (x, one[i], TRIALS, odds[x][0]))
        for j in range(i + 1, len(keys)):
            c, q = two.get((i, j), 0), both(x, keys[j])
            ctx.check(TRIALS * divergence(float(c) / TRIALS, q) < 30, "often:two:" + what,
                      lambda: "%r and %r together %d times of %d, probability %r" % (x, keys[j], c, TRIALS, q))
    ctx.steps += TRIALS
    ctx.hit("often:" + what)
    ctx.hit("frequencies", len(keys))
    ctx.emit(what, repr(one))
    ctx.nontrivial = bool(keys)


def joint(odds, x, y):
    (p, g, a, k), (q, h, _, l) = odds[x], odds[y]
    if g is None or g != h:
        return p * q
    if g == "shuffle":
        if k != l:
            return p * q
        return 0.0 if x[0] == y[0] or x[1] == y[1] else 1.0 / a / (a - 1)
    return float(k) * (k - 1) / (a * (a - 1)) if a > 1 else 0.0


def execute(sc, ctx):
    if sc["mode"] == "often":
        return often(sc, ctx)
    if sc["mode"] == "illegal":
        return illegal(sc, ctx)
    c06.execute(sc, ctx, gens.make_model)


def shrink(sc):
    if sc["mode"] in ("illegal", "often"):
        return
    if sc["mode"] == "threads":
        import checks.c07 as me
        for s in shrink_plan(me, sc):
            yield s
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    for i, g in enumerate(sc["calls"]):
        for h in shrink_call(g):
            yield dict(sc, calls=sc["calls"][:i] + [h] + sc["calls"][i + 1:])


def shrink_call(g):
    for h in c06.shrink_call(g):
        yield h
    if g["f"] == "randomize":
        for sp in nets.shrink(g["net"]):
            yield dict(g, net=sp)
    if g["f"] in ("full", "full_ml", "er_ml", "er_p", "ba") and g["n"] > 1:
        yield dict(g, n=g["n"] - 1)
        yield dict(g, n=g["n"] // 2)
    for k in ("ms", "p", "m"):
        if g["f"] in ("ba", "er_p", "geo", "ws") and isinstance(g.get(k), list) and len(g[k]) > 1:
            yield dict(g, L=g["L"] - 1, **{k: g[k][:-1]})
