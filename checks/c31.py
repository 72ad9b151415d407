"""C31: isomorphism verdicts, mappings, invariants and automorphisms are those
of the networks as they stand, whatever the solver chooses."""
import itertools
import sys

from sim import bliss

from checks import measure
from checks.c17 import apply, brute, content, elements
from checks.common import link
from checks.measure import Measure, gen_ml, gen_mux
from sim.core import rng_for

USES_TRACE = True
SHRINK = ("steps",)


def world(rng, tier):
    if rng.random() < 0.6:
        cfg = gen_ml(rng, directed=False, noedge=rng.choice([0, 0, 4]), nn=rng.randint(2, 4))
        if cfg["aspects"] == 2:
            cfg["nn"], cfg["nlay"] = rng.randint(2, 3), rng.randint(1, 2)
        return cfg
    cfg = gen_mux(rng, directed=False, aspects=1, nn=rng.randint(2, 4), nlay=rng.randint(1, 3))
    return cfg


def generate(rng, tier):
    return measure.generate(sys.modules[__name__], rng, tier)


def execute(sc, ctx):
    bliss.reset(0)
    measure.execute(sys.modules[__name__], sc, ctx)


def shrink(sc):
    return measure.shrink(sys.modules[__name__], sc)


def own(v):
    """(node-layers, links) of the model."""
    return set(v.nls), set(frozenset(k) for k in v.m.e)


def args(v, pair=True):
    if len(v.nls) > 14 or len(v.nodes) > 5 or any(len(l) > 3 for l in v.layers):
        return None
    n = v.asp + 1
    rng = v.rng
    a = {"allowed": rng.choice(["all", "all", list(range(n)), sorted(rng.sample(range(n), rng.randint(1, n)))]), "fixed": rng.random() < 0.4,
         "solver": (rng.getrandbits(20), rng.getrandbits(2)), "backend": rng.choice(["auto", "nx", "bliss", "bliss"]), "flip": rng.random() < 0.3}
    if rng.random() < 0.2 and isinstance(a["allowed"], list):
        a["allowed"] = a["allowed"][::-1]
    if rng.random() < 0.2 and isinstance(a["allowed"], list):
        a["allowed"] = rng.choice([tuple, set, frozenset])(a["allowed"])
    if not pair:
        return a
    allowed = range(n) if a["allowed"] == "all" else a["allowed"]
    els = [v.nodes] + v.layers
    maps = []
    for k, e in enumerate(els):
        p = list(e)
        if k in allowed:
            rng.shuffle(p)
            if a["allowed"] == "all":
                p = ["new-%s" % (x,) for x in p]
        maps.append(dict(zip(e, p)))
    nls, es = apply(maps, *own(v))
    edit = rng.choice(["none", "none", "none", "toggle", "move", "move", "grow", "shift", "rename"])
    pairs = sorted((frozenset(p) for p in itertools.combinations(sorted(nls, key=repr), 2)), key=lambda e: repr(sorted(e, key=repr)))
    have, free = [p for p in pairs if p in es], [p for p in pairs if p not in es]
    els = [list(m.values()) for m in maps]
    if edit == "toggle" and pairs:
        es = es ^ set([rng.choice(pairs)])
    elif edit == "move" and have and free:
        es = (es - set([rng.choice(have)])) | set([rng.choice(free)])
    elif edit == "grow":
        k = rng.randrange(n)
        x = "zz" if all(isinstance(y, str) for y in els[k]) else 99
        els[k] = els[k] + [x]
        if nls and not v.aligned and rng.random() < 0.7:
            y = list(rng.choice(sorted(nls, key=repr)))
            y[k] = x
            nls = nls | set([tuple(y)])
    elif edit == "shift" and not v.aligned and nls:
        # an isolated node-layer goes elsewhere
        y = rng.choice(sorted(nls, key=repr))
        if not any(y in e for e in es):
            z = tuple(rng.choice(e) for e in els)
            nls = (nls - set([y])) | set([z])
    elif edit == "rename":
        # other names in an aspect (mostly one that is not permuted)
        k = rng.choice([k for k in range(n) if k not in allowed] or list(range(n)))
        new = dict((x, "q" + x if isinstance(x, str) else x + 100 if rng.random() < 0.9 else x) for x in els[k])
        if els[k] and rng.random() < 0.4:
            one = rng.choice(els[k])
            new = dict((x, new[x] if x == one else x) for x in els[k])
        names = [new if j == k else dict((x, x) for x in e) for j, e in enumerate(els)]
        els[k] = [new[x] for x in els[k]]
        nls, es = apply(names, nls, es)
    if v.aligned:
        nls = set(itertools.product(*els))
    a["edit"] = edit
    a["other"] = ([sorted(e, key=repr) for e in els], sorted(nls, key=repr), sorted((sorted(e, key=repr) for e in es), key=repr), rng.getrandbits(20))
    return a


def other(P, n, a):
    """The second network, built in a drawn order."""
    els, nls, es, code = a["other"]
    asp = n.aspects
    rng = rng_for("other", code)
    b = P.MultilayerNetwork(aspects=asp, fullyInterconnected=n.fullyInterconnected)
    todo = [(0, (lambda x=x, k=k: b.add_node(x)) if k == 0 else (lambda x=x, k=k: b.add_layer(x, k))) for k, e in enumerate(els) for x in e]
    if not n.fullyInterconnected:
        todo += [(0, lambda x=x: b.add_node(x[0], layer=x[1] if asp == 1 else x[1:])) for x in nls]
    for e in es:
        e = e if len(e) == 2 else e * 2
        todo.append((0, lambda e=e: b.__setitem__(link(*(e if rng.random() < 0.5 else e[::-1])), rng.choice([1, 2.5]))))
    rng.shuffle(todo)
    for _, t in todo:
        t()
    return b


def truth(v, a):
    els, nls, es, _ = a["other"]
    allowed = list(range(v.asp + 1)) if a["allowed"] == "all" else a["allowed"]
    return brute(own(v), [v.nodes] + v.layers, (set(nls), set(frozenset(e) for e in es)), els, allowed)


def solver(a):
    bliss.reset(*a["solver"])


def back(a):
    return {} if a["backend"] == "auto" else {"backend": a["backend"]}


def verdict(P, n, a):
    from pymnet import isomorphisms as I
    solver(a)
    b = other(P, n, a)
    x, y = (b, n) if a["flip"] else (n, b)
    return I.is_isomorphic(x, y, **dict(back(a), **({} if a["allowed"] == "all" else {"allowed_aspects": a["allowed"]})))


def mapping(P, n, a):
    from pymnet import isomorphisms as I
    solver(a)
    b = other(P, n, a)
    m = I.get_isomorphism(n, b, allowed_aspects=a["allowed"], include_fixed=a["fixed"], **back(a))
    if m is None:
        return {"mapped": False, "bad": None}
    return {"mapped": True, "bad": wrong(m, a, n.aspects + 1, elements(n), content(n), content(b))}


def wrong(m, a, n, els, A, B):
    allowed = list(range(n)) if a["allowed"] == "all" else a["allowed"]
    if not isinstance(m, list) or len(m) != n:
        return "%r for %d aspects" % (m, n)
    if any(k != x for c in range(n) if c not in allowed for k, x in m[c].items()):
        return "an aspect that may not be permuted is permuted: %r" % (m,)
    if any((set(m[c]) != set(els[c])) if a["fixed"] else any(k == x for k, x in m[c].items()) for c in range(n)):
        return "include_fixed=%r, but the mapping is %r" % (a["fixed"], m)
    if apply(m, *A) != B:
        return "the mapping %r does not give the second network" % (m,)
    return None


def invariant(P, n, a):
    from pymnet import isomorphisms as I
    solver(a)
    b = other(P, n, a)
    k = {"allowed_aspects": a["allowed"]}
    if a["flip"]:
        k["backend"] = "bliss"
    x, y, z = I.get_complete_invariant(n, **k), I.get_complete_invariant(b, **k), I.get_complete_invariant(n, **k)
    return {"same": x == y, "stable": x == z, "hashed": hash(x) == hash(z), "as text": str(x) == str(y)}


def inv_ref(v, a):
    t = truth(v, a)
    return {"same": t, "stable": True, "hashed": True, "as text": t}


def generators(P, n, a):
    from pymnet import isomorphisms as I
    solver(a)
    gens = I.get_automorphism_generators(n, allowed_aspects=a["allowed"], include_fixed=a["fixed"])
    els, A = elements(n), content(n)
    bad = [x for x in (wrong(g, a, n.aspects + 1, els, A, A) for g in gens) if x]
    if bad:
        return {"bad": bad[0], "group": 0}
    # the group they make
    flat = [(c, x) for c, e in enumerate(els) for x in e]
    perms = [tuple((c, g[c].get(x, x)) for c, x in flat) for g in gens]
    place = dict((x, k) for k, x in enumerate(flat))
    have = set([tuple(flat)])
    new = [tuple(flat)]
    while new:
        x = new.pop()
        for g in perms:
            y = tuple(g[place[q]] for q in x)
            if y not in have:
                have.add(y)
                new.append(y)
    return {"bad": None, "group": len(have)}


def gen_ref(v, a):
    allowed = list(range(v.asp + 1)) if a["allowed"] == "all" else a["allowed"]
    A = own(v)
    opts = [[dict(zip(e, p)) for p in itertools.permutations(e)] if k in allowed else [{}] for k, e in enumerate([v.nodes] + v.layers)]
    return {"bad": None, "group": sum(apply(ms, *A) == A for ms in itertools.product(*opts))}


TABLE = [
    Measure("is_isomorphic", verdict, truth, need=args),
    Measure("get_isomorphism", mapping, lambda v, a: {"mapped": truth(v, a), "bad": None}, need=args),
    Measure("get_complete_invariant", invariant, inv_ref, need=args),
    Measure("get_automorphism_generators", generators, gen_ref, need=lambda v: args(v, False)),
]
