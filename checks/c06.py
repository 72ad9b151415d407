"""C06: the configuration models realise the requested degrees whatever the
random stream, whether called alone, interrupted and called again, or from two
threads at once."""
import copy

from sim import rand
from sim.core import Hang, Inconclusive, SimInterrupt, canon, freeze
from sim.sched import Sched
from checks import analyses, gens
from checks.common import shrink_plan

USES_TRACE = True
SHRINK = ("calls",)
BUDGET = 4000
EASY_BUDGET = 60000     # draws; fair streams need less than a tenth


def gen_one(rng, tier):
    return gens.gen_conf(rng, tier)


def gen_impossible(rng, tier):
    """Degrees no simple network has: an odd sum, or more ends than pairs."""
    while True:
        g = gens.gen_conf(rng, tier)
        if "edges" in g:
            continue
        ls = [g["combos"][0][1]] if g["f"] == "overlaps" else [g["layers"][0]]
        l = ls[0]
        if not l:
            continue
        if rng.random() < 0.5:
            l[rng.randrange(len(l))][1] += 1
        else:
            n = len(l)
            for x in l:
                x[1] = n + (n % 2)          # the sum is even
        return g


make = gens.make_conf


def generate(rng, tier, gen=None):
    gen = gen or gen_one
    mode = rng.choice(["plain", "plain", "plain", "plain", "interrupt", "threads"])
    if gen is gen_one and rng.random() < 0.05:
        return {"mode": "refuse", "seed": rng.getrandbits(40), "stream": rng.choice(rand.MODES), "calls": [gen_impossible(rng, tier)]}
    if rng.random() < 0.06:
        return {"mode": "easy", "seed": rng.getrandbits(40), "stream": "mt", "calls": [(gens.gen_easy_conf if gen is gen_one else gens.gen_easy_model)(rng, tier)]}
    sc = {"mode": mode, "seed": rng.getrandbits(40), "stream": rng.choice(rand.MODES),
          "calls": [gen(rng, tier) for _ in range({"plain": rng.randint(1, 2), "interrupt": 1, "threads": 2}[mode])]}
    for g in sc["calls"][1:]:       # one process, one hash order
        g["labels"], g["salt"] = sc["calls"][0]["labels"], sc["calls"][0]["salt"]
        if "net" in g:
            g["net"].update(labels=g["labels"], salt=g["salt"])
        if g["labels"] == "int":
            continue
        if g["n"] > 16:
            sc["calls"] = sc["calls"][:1]
            break
    if mode == "interrupt":
        sc["frac"] = round(rng.random(), 3)
        sc["again"] = rng.getrandbits(20)
    elif mode == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.02, 0.2, 0.5])}
    return sc


def frozen(src):
    return [analyses.snapshot(s) if hasattr(s, "edges") else canon(s) for s in src]


def held(src):
    return [freeze(s, analyses.snapshot(s)) if hasattr(s, "edges") else canon(s) for s in src]


def execute(sc, ctx, make=None):
    import pymnet as P
    make = make or gens.make_conf
    rand.reset(sc["seed"], sc["stream"], BUDGET)
    if sc["mode"] == "threads":
        return threads(P, sc, ctx, make)
    if sc["mode"] == "refuse":
        return refuse(P, sc, ctx, make)
    for g in sc["calls"]:
        call, chk, src = make(P, g)
        if sc["mode"] == "easy":
            call = in_time(ctx, call, sc, g["f"])
        before = held(src)
        rand.resume_budget(BUDGET)
        ctx.steps += 1
        if sc["mode"] == "interrupt":
            rand.reset(sc["seed"], sc["stream"], BUDGET)
            net = attempt(call)
            chk(ctx, net)
            k = 1 + int(sc["frac"] * max(0, rand.draws() - 1))
            if rand.draws():
                state = {"n": 0}

                def hook():
                    state["n"] += 1
                    if state["n"] == k:
                        raise SimInterrupt("injected")
                rand.reset(sc["seed"], sc["stream"], BUDGET)
                rand.set_hook(hook)
                try:
                    call()
                except SimInterrupt:
                    ctx.fault("interrupt")
                finally:
                    rand.set_hook(None)
                ctx.check(frozen(src) == before, "argument-changed", "after an interrupted call")
            rand.reset(sc["again"], sc["stream"], BUDGET)
        net = attempt(call)
        chk(ctx, net)
        ctx.hit("returned:" + g["f"])
        ctx.nontrivial = ctx.nontrivial or len(net.edges) > 0
        ctx.check(frozen(src) == before, "argument-changed", lambda: "arguments of %s changed" % g["f"])
        ctx.emit(g["f"], repr(g.get("labels")), repr(summary(net)))


def in_time(ctx, call, sc, name):
    """Sparse requests under fair streams: the call ends within the draws.  A
    repair may run into a dead end, once in some ten thousand calls: three
    streams of three have to."""
    def f():
        for k in range(3):
            rand.reset(sc["seed"] + k, sc["stream"], EASY_BUDGET)
            try:
                r = call()
            except rand.DrawBudget:
                ctx.hit("dead_end:" + name)
                continue
            ctx.hit("in_time:" + name)
            return r
        ctx.fail("no-progress:" + name, "a sparse request under three fair streams is not met within %d draws each" % EASY_BUDGET)
    return f


def refuse(P, sc, ctx, make):
    """Degrees that no simple network has are refused, not answered with other
    ones nor searched for without end."""
    if not sc["calls"]:
        return
    g = sc["calls"][0]
    call, chk, src = make(P, g)
    before = held(src)
    ctx.steps += 1
    try:
        net = call()
    except rand.DrawBudget:
        ctx.fail("impossible-searched:" + g["f"], "degrees no network can have, and the search does not end: %r" % (src,))
    except Exception as e:
        ctx.emit("refused", g["f"], type(e).__name__)
    else:
        ctx.fail("impossible-answered:" + g["f"], "degrees no network can have were answered with links %r: %r" % (sorted(map(repr, net.edges))[:20], src))
    ctx.check(frozen(src) == before, "argument-changed", lambda: "arguments of %s changed" % g["f"])
    ctx.hit("refused:" + g["f"])
    ctx.nontrivial = True


def attempt(call):
    try:
        return call()
    except ValueError as e:
        if "Sample larger" in str(e):       # nothing left to swap with
            raise Inconclusive("no swap possible")
        raise


def threads(P, sc, ctx, make):
    made = [make(P, g) for g in sc["calls"]]
    before = [held(m[2]) for m in made]
    s = Sched(sc["plan"], max_yields=300000)
    for m in made:
        s.spawn(m[0])
    try:
        res = s.run()
    except Hang:
        raise Inconclusive("rejection loop in a thread")
    ctx.steps += s.yields
    ctx.hit("thread_switches", len(s.switches))
    for g, m, r, b in zip(sc["calls"], made, res, before):
        if r[0] != "ok":
            if isinstance(r[1], (rand.DrawBudget, Hang)):
                raise Inconclusive("rejection loop in a thread")
            if isinstance(r[1], ValueError) and "Sample larger" in str(r[1]):
                raise Inconclusive("no swap possible")
            ctx.fail("thread:%s:%s" % (g["f"], type(r[1]).__name__), "raised %r" % (r[1],))
        m[1](ctx, r[1])
        ctx.check(frozen(m[2]) == b, "argument-changed", lambda: "arguments of %s changed" % g["f"])
        ctx.hit("threaded:" + g["f"])
        ctx.nontrivial = ctx.nontrivial or len(r[1].edges) > 0
        ctx.emit(g["f"], repr(summary(r[1])))
    ctx.emit("switches", repr(s.switches[:40]))


def summary(net):
    return (len(net), len(net.edges), sorted(repr(tuple(e)) for e in net.edges)[:60])


def shrink(sc):
    if sc["mode"] == "threads":
        for s in shrink_plan(__import__("checks." + "c06", fromlist=["x"]), sc):
            yield s
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    for i, g in enumerate(sc["calls"]):
        for h in shrink_call(g):
            if sc["mode"] == "refuse" and len(h.get("layers", ())) != len(g.get("layers", ())):
                continue
            yield dict(sc, calls=sc["calls"][:i] + [h] + sc["calls"][i + 1:])


def shrink_call(g):
    if g["labels"] != "int":
        yield dict(g, labels="int")
    if g["couplings"] != ["categorical", 1.0]:
        yield dict(g, couplings=["categorical", 1.0])
    if "layers" in g and len(g["layers"]) > 1 and "edges" not in g:
        for i in range(len(g["layers"])):
            yield dict(g, layers=g["layers"][:i] + g["layers"][i + 1:])
