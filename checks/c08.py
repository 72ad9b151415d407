"""C08: the same arguments and the same seed give the same result in the same
order, whatever happened in between."""
from sim import rand
from sim.core import Inconclusive, SimInterrupt, canon, rng_for
from checks import c09, gens, nets, subs

SHRINK = ("noise",)
SEEDS = [0, 1, 2, 17, -3, "", "a", "seed", 2 ** 40, 0.5]
NOISE = ["draws", "draws", "reseed", "entropy", "other", "network", "same_other_seed", "interrupted", "analysis", "state"]


def generate(rng, tier):
    kind = rng.choice(["esu", "esu", "esu", "er_ml_part", "er_ml_part", "model", "model", "conf", "nodelists", "depends"])
    sc = {"kind": kind, "salt": rng.getrandbits(40), "stream": rng.choice(rand.MODES), "seed": rng.choice(SEEDS), "seed2": rng.choice(SEEDS),
          "bytes": rng.random() < 0.15, "again": rng.randint(1, 3)}
    if kind in ("esu", "depends"):
        sp = nets.gen(rng, rng.choice(["ml1", "ml1", "mux1"]), nn=rng.randint(3, 5), nlay=rng.randint(1, 3), directed=False,
                      density=rng.choice([0.4, 0.7]) if kind == "esu" else 1.0)
        sc["net"] = sp
        sc["par"] = subs.gen_params(rng, sp) if kind == "esu" else {"form": "nnodes", "nnodes": 2, "nlayers": 1}
        if sc["par"]["form"].startswith("custom"):
            sc["par"]["form"] = "nnodes"
        d = max(1, subs.depth(sc["par"]))
        sc["p"] = [rng.choice([0.4, 0.6, 0.8, 1]) for _ in range(d)] if kind == "esu" else [1] * (d - 1) + [0.5]
        sc["copy"] = rng.random() < 0.5
        if kind == "depends":
            sc["stream"] = "mt"
    elif kind == "er_ml_part":
        sc["call"] = gens.gen_model(rng, tier, "er_ml_part")
        sc["call"]["p"] = rng.choice([0.3, 0.5, 0.7, 1.0])
    elif kind == "model":
        sc["call"] = gens.gen_model(rng, tier)
    elif kind == "conf":
        sc["call"] = gens.gen_conf(rng, tier)
    else:
        sc["call"] = {"pool": rng.randint(3, 12), "k": rng.randint(1, 3), "layers": rng.randint(1, 3), "labels": "int", "salt": 0}
    sc["noise"] = [[rng.choice(NOISE), rng.getrandbits(20)] for _ in range(rng.randint(1, 5))]
    return sc


def ordered(net):
    """A network with everything in the order the library gives it."""
    return (repr(list(net)), repr([list(net.get_layers(a)) for a in range(1, net.aspects + 1)]), repr([tuple(e) for e in net.edges]))


def execute(sc, ctx):
    import random
    import pymnet as P
    from pymnet.sampling import creators as C
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    rand.reset(sc["salt"], sc["stream"], 30000)
    seed = sc["seed"]
    if sc["bytes"] and isinstance(seed, str):
        seed = seed.encode()
    kind = sc["kind"]
    made = [0]
    net = None
    if kind in ("esu", "depends"):
        net = nets.build(P, sc["net"], rng_for("o", sc["salt"]))

        def target(s):
            res = []
            esu(net, res, p=list(sc["p"]), seed=s, copy_network=sc["copy"], **subs.kwargs(sc["par"]))
            return repr(res)
    elif kind == "er_ml_part":
        call, chk, src = gens.make_model(P, dict(sc["call"], iters=False))
        g = sc["call"]
        lists = src[0]

        def target(s):
            r = C.er_multilayer_partially_interconnected(lists, g["p"], seed=s)
            made[0] += len(r.edges)
            return ordered(r)
    elif kind == "nodelists":
        g = sc["call"]

        def target(s):
            made[0] += 1
            return repr(list(C.random_nodelists(g["pool"], g["k"], g["layers"], seed=s)))
    else:
        call, chk, src = (gens.make_model if kind == "model" else gens.make_conf)(P, sc["call"])
        own = sc["call"]["f"] == "er_ml_part"

        def target(s):
            if own:
                return ordered(C.er_multilayer_partially_interconnected(src[0], sc["call"]["p"], seed=s))
            random.seed(s)
            r = call()
            made[0] += len(r.edges)
            return ordered(r)

    def once(s):
        rand.resume_budget(30000)
        try:
            return target(s)
        except ValueError as e:
            if "Sample larger" in str(e):
                raise Inconclusive("no swap possible")
            raise

    if kind == "nodelists":
        try:
            once(seed)
        except NameError as e:
            ctx.fail("nodelists:NameError", str(e))
    first = once(seed)
    n = rand.draws()
    ctx.emit(kind, repr(seed), repr(first)[:300])
    for _ in range(sc["again"]):
        for what, k in sc["noise"]:
            noise(P, sc, ctx, what, k, once, n, net)
        again = once(seed)
        ctx.steps += 1
        ctx.check(again == first, "not-repeatable:" + kind, lambda: "with seed %r first %s, later %s" % (seed, first, again))
    ctx.nontrivial = made[0] > 0 or "(" in repr(first)
    ctx.hit("repeated:" + kind, sc["again"])
    if kind == "depends":
        distinct = set()
        for s in range(40):
            distinct.add(once(s))
        full = []
        esu(net, full, nnodes=2, nlayers=1, copy_network=sc["copy"])
        if len(full) >= 3:
            ctx.check(len(distinct) > 1, "seed-ignored", "40 seeds give the same sample of %d subgraphs" % len(full))
            ctx.hit("depends_checked")


def noise(P, sc, ctx, what, k, once, n, net):
    import random
    from pymnet import models as M
    from pymnet.sampling import creators as C
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
    ctx.hit("noise:" + what)
    if what == "draws":
        for _ in range(k % 50):
            random.random()
        random.shuffle([1, 2, 3])
    elif what == "reseed":
        random.seed(k)
    elif what == "entropy":
        random.seed()
    elif what == "other":
        esu(M.er([[1, 2], [2, 3]], p=0.8), [], nnodes=2, nlayers=1, p=[0.5, 0.5], seed=k % 3)
    elif what == "network":
        C.er_multilayer_partially_interconnected([[1, 2, 3], [1]], 0.5, seed=k % 3)
    elif what == "same_other_seed":
        once(sc["seed2"])
    elif what == "state":
        st = random.getstate()
        random.random()
        random.setstate(st)
    elif what == "analysis":
        if net is not None:
            len(net.edges), P.transforms.subnet(net, list(net)[:2], list(net.get_layers(1))[:1]), [list(net[x]) for x in net.iter_node_layers()]
    elif what == "interrupted" and n:
        left = [1 + k % n]

        def hook():
            left[0] -= 1
            if left[0] == 0:
                raise SimInterrupt("injected")
        rand.set_hook(hook)
        try:
            once(sc["seed"])
        except SimInterrupt:
            ctx.fault("interrupt")
        finally:
            rand.set_hook(None)


def shrink(sc):
    if sc["again"] > 1:
        yield dict(sc, again=1)
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    if "net" in sc:
        for sp in nets.shrink(sc["net"]):
            yield dict(sc, net=sp)
