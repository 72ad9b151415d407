"""C09: the sampler reports each acceptable induced subgraph exactly once,
whatever the numbering, hash order, random stream, copy mode, failing callback,
interruption or neighbouring threads."""
from sim import rand
from sim.core import SimInterrupt
from sim.sched import Sched
from checks import analyses, c05, nets, subs
from checks.common import divergence, shrink_plan
from checks.c04 import SHIELD

USES_TRACE = True
SHRINK = ("calls",)
DEFAULT_KIND = ["ml1", "ml1", "ml1", "mux1", "mux1"]


def generate(rng, tier):
    mode = rng.choice(["plain", "plain", "plain", "fault", "fault", "threads"])
    r = rng.random()
    if r < 0.05:
        mode = "refuse" if r < 0.03 else "often"
    sp = nets.gen(rng, rng.choice(DEFAULT_KIND), **size(rng, mode),
                  directed=False, aligned=rng.random() < 0.25, noedge=[0] * 6 + [-1])
    sc = {"mode": mode, "net": sp, "order": rng.getrandbits(30), "seed": rng.getrandbits(40), "stream": rng.choice(rand.MODES), "calls": []}
    if mode == "refuse":
        sc["calls"] = [[rng.choice(["esu", "dumb"]), i] for i in rng.sample(range(len(ILLEGAL)), 5)]
        return sc
    for _ in range({"plain": rng.randint(1, 3), "threads": 2}.get(mode, 1)):
        par = subs.gen_params(rng, sp)
        c = {"par": par, "copy": rng.random() < 0.5, "out": rng.choice(["list", "list", "used", "call"]),
             "seed": rng.choice([None, 0, 1, 7, "s", ""]), "algo": "dumb" if rng.random() < 0.12 else "esu"}
        d = subs.depth(par)
        r = rng.random()
        if c["algo"] == "esu" and d >= 1:
            if r < 0.15:
                c["p"] = [1] * d
            elif r < 0.3:
                c["p"] = [rng.choice([0.3, 0.5, 0.9, 1]) for _ in range(d)]
            elif r < 0.4:
                c["p"] = [rng.choice([0.5, 1, 1.0]) for _ in range(d)]
                c["p"][rng.randrange(d)] = 0
        if mode == "fault":
            c["fault"] = rng.choice(["callback", "check", "interrupt", "interrupt", "memory"])
            c["frac"] = round(rng.random(), 4)
            if c["fault"] == "check" and "sizes" in par:
                c["fault"] = "callback"
            if c["fault"] == "callback":
                c["out"] = "call"
        sc["calls"].append(c)
    if mode == "often":
        c = sc["calls"][0]
        c.update(algo="esu", p=[rng.choice([0.25, 0.5, 0.8, 1]) for _ in range(max(1, subs.depth(c["par"])))])
        sc.update(stream="mt", trials=400)
    if mode == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.01, 0.1, 0.4])}
    return sc


def size(rng, mode):
    if mode != "plain":
        return {"nn": rng.randint(2, 4), "nlay": rng.randint(1, 2)}
    nlay = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    return {"nn": rng.randint(2, {4: 4, 5: 3}.get(nlay, 5)), "nlay": nlay}


ANY = lambda *a: True
# requests that lack, repeat or contradict a requirement
ILLEGAL = [
    {}, {"sizes": [1]}, {"intersections": []}, {"nnodes": 2}, {"nlayers": 1}, {"sizes": [1], "nnodes": 1}, {"intersections": [], "nlayers": 1},
    {"sizes": [1, 1], "intersections": [None]}, {"sizes": [1, 1], "intersections": [None], "nlayers": 2},
    {"sizes": [1, 1], "intersections": [None], "intersection_type": "less_or_equal"},
    {"sizes": [1, 1], "intersections": [1], "nnodes": 1, "nlayers": 2}, {"sizes": [1, 1], "intersections": [1], "nnodes": 1},
    {"sizes": [1, 1], "intersections": [1], "nlayers": 2},
    {"sizes": [1, 1], "intersections": [1], "intersection_type": "less_or_equal"},
    {"sizes": [1, 1], "intersections": [1], "nlayers": 2, "intersection_type": "less_or_equal"},
    {"sizes": [1, 1], "intersections": 1}, {"sizes": [1, 1], "intersections": 1, "nlayers": 2}, {"sizes": [1, 1], "intersections": -1, "nnodes": 1},
    {"sizes": [1, 1], "intersections": 1, "nnodes": 1, "nlayers": 2},
    {"custom_check_function": ANY}, {"custom_check_function": ANY, "nnodes": 1}, {"custom_check_function": ANY, "nlayers": 1},
    {"custom_check_function": ANY, "sizes": [1], "intersections": []}, {"custom_check_function": ANY, "sizes": [1], "intersections": [], "nnodes": 1},
    {"nnodes": 0, "nlayers": 1}, {"nnodes": 1, "nlayers": 0}, {"nnodes": -1, "nlayers": 1}, {"nnodes": 1, "nlayers": -1},
    {"nnodes": 1.0, "nlayers": 1}, {"nnodes": 1, "nlayers": 1.0}, {"nnodes": 1, "nlayers": 1, "sizes": [1]}, {"nnodes": 1, "nlayers": 1, "intersections": []},
]


def refuse(sc, ctx, net):
    from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
    from pymnet.sampling.dumb import dumb_enumeration
    for algo, i in sc["calls"]:
        out = []
        ctx.steps += 1
        try:
            (dumb_enumeration if algo == "dumb" else sample_multilayer_subgraphs_esu)(net, out, **ILLEGAL[i])
        except Exception as e:
            ctx.check(not out, "illegal-delivered", lambda: "%s%r delivered %r, then raised %r" % (algo, ILLEGAL[i], out, e))
            ctx.hit("illegal_requests")
        else:
            ctx.fail("illegal-accepted", "%s accepted %r and delivered %r" % (algo, ILLEGAL[i], out))
        ctx.emit(algo, i)


def often(sc, ctx, P, net, truth):
    """How often is each subgraph sampled?"""
    c = sc["calls"][0]
    n = sc["trials"]
    want = truth.answer(c["par"])
    q = 1.0
    for x in c["p"]:
        q *= x
    count = dict.fromkeys(want, 0)
    for t in range(n):
        rand.reset(sc["seed"] + 17 * t, "mt", 1000000)
        call = Call(P, net, truth, c if c["seed"] is None else dict(c, seed=sc["seed"] + t))
        call.run()
        call.judge(ctx, True)
        for r in call.delivered():
            if key(r) in count:
                count[key(r)] += 1
    ctx.steps += n
    for k, x in count.items():
        ctx.check(n * divergence(float(x) / n, q) < 28, "frequency", lambda: "%r sampled %d times of %d with p=%r" % (show([k]), x, n, c["p"]))
    ctx.hit("frequencies", len(count))
    ctx.emit("often", q, repr(sorted((show([k]), x) for k, x in count.items())))
    ctx.nontrivial = bool(want)


class CallbackError(Exception):
    pass


def key(r):
    return (frozenset(r[0]), frozenset(r[1]))


class Call(object):
    """One sampler call, its delivered results and how to judge them."""

    def __init__(self, P, net, truth, c, fail_at=None):
        self.P, self.net, self.truth, self.c, self.par = P, net, truth, c, c["par"]
        self.got = []
        self.calls = 0
        self.fail_at = fail_at
        self.pre = [("earlier", "content")] if c["out"] == "used" else []
        self.list = list(self.pre)

    def sink(self, x):
        if self.c.get("fault") == "callback":
            self.calls += 1
            if self.fail_at == self.calls:
                raise CallbackError()
        self.got.append(x)

    def check(self, network, nodelist, layerlist):
        if self.c.get("fault") == "check":
            self.calls += 1
            if self.fail_at == self.calls:
                raise CallbackError()
        if self.par["form"] == "custom":
            return self.truth.connected(nodelist, layerlist) and self.truth.pred(self.par["pred"], nodelist, layerlist)
        if self.par["form"] == "custom_all":
            return True
        return self.truth.connected(nodelist, layerlist)

    def run(self):
        from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
        from pymnet.sampling.dumb import dumb_enumeration
        kw = subs.kwargs(self.par)
        if self.par["form"].startswith("custom") or (self.par["form"] == "nnodes" and self.c.get("fault") == "check"):
            kw["custom_check_function"] = self.check
        res = self.sink if self.c["out"] == "call" else self.list
        if self.c["algo"] == "dumb":
            dumb_enumeration(self.net, res, **kw)
        else:
            if self.c["p_use"]:
                kw["p"] = list(self.c["p"])
            sample_multilayer_subgraphs_esu(self.net, res, seed=self.c["seed"], copy_network=self.c["copy"], **kw)
        return True

    def delivered(self):
        return self.got if self.c["out"] == "call" else self.list[len(self.pre):]

    def judge(self, ctx, finished):
        what = "%s(%s%s)" % (self.c["algo"], self.par["form"], "" if self.c["copy"] else ", copy_network=False")
        if self.c["out"] != "call":
            ctx.check(self.list[:len(self.pre)] == self.pre, "results-list", "earlier content of the results list changed")
        d = self.delivered()
        for r in d:
            ctx.check(isinstance(r, tuple) and len(r) == 2 and len(set(r[0])) == len(r[0]) and len(set(r[1])) == len(r[1]),
                      "malformed", lambda: "%s delivered %r" % (what, r))
        got = [key(r) for r in d]
        ctx.check(len(set(got)) == len(got), "duplicate", lambda: "%s delivered a subgraph twice: %r" % (what, d))
        want = self.truth.answer(self.par)
        got = set(got)
        if self.par["form"] == "custom_all":
            # unconnected subgraphs may be tried and are then accepted too
            extra = set()
            bad = [g for g in got if len(g[0]) != self.par["nnodes"] or len(g[1]) != self.par["nlayers"]]
            missing = want - got
        else:
            extra, bad, missing = got - want, [], want - got
        ctx.check(not extra and not bad, "wrong-subgraph", lambda: "%s delivered %r which is not acceptable" % (what, show(extra or bad)))
        p = self.c.get("p") if self.c["algo"] == "esu" and self.c["p_use"] else None
        if p and 0 in p:
            ctx.check(not got, "zero-probability", lambda: "%s delivered %r with p=%r" % (what, show(got), p))
        elif finished and (p is None or all(x == 1 for x in p)):
            ctx.check(not missing, "missing-subgraph", lambda: "%s did not deliver %r" % (what, show(missing)))
            ctx.hit("complete_answers")
            ctx.hit("subgraphs", len(want))
        return want


def show(s):
    return sorted([sorted(map(repr, a)), sorted(map(repr, b))] for a, b in s)[:3]


def execute(sc, ctx):
    import pymnet as P
    from sim.core import freeze, rng_for
    sp = sc["net"]
    node, layer = nets.labelled(sp)
    rand.reset(sc["seed"], sc["stream"])
    net = nets.build(P, sp, rng_for("order", sc["order"]), node, layer, junk=2)
    truth = subs.Truth(sp, c05.flat(c05.model_of(sp, node, layer)), node, layer)
    before = freeze(net, analyses.snapshot(net))
    import networkx
    graph = networkx.Graph

    def same(what):
        after = analyses.snapshot(net)
        ctx.check(after == before, "network-changed", lambda: "after %s: %s" % (what, __import__("checks.c04", fromlist=["diff"]).diff(before, after)))

    if sc["mode"] == "refuse":
        refuse(sc, ctx, net)
        same("illegal requests")
        ctx.nontrivial = bool(sp["nls"])
        return
    for c in sc["calls"]:
        c["p_use"] = "p" in c
    if sc["mode"] == "often":
        often(sc, ctx, P, net, truth)
        same("sampling")
        return
    if sc["mode"] == "threads":
        calls = [Call(P, net, truth, c) for c in sc["calls"]]
        s = Sched(sc["plan"], max_yields=1500000)
        for c in calls:
            s.spawn(c.run)
        for c, r in zip(calls, s.run()):
            if r[0] != "ok":
                ctx.fail("thread:%s" % type(r[1]).__name__, "raised %r" % (r[1],))
            want = c.judge(ctx, True)
            ctx.emit("thread", c.par["form"], repr(show([key(x) for x in c.delivered()])), str(len(want)))
            ctx.nontrivial = ctx.nontrivial or bool(want)
        ctx.steps += s.yields
        ctx.hit("thread_switches", len(s.switches))
        same("threads")
        ctx.emit(repr(s.switches[:40]))
        return
    for c in sc["calls"]:
        ctx.steps += 1
        fail_at = None
        f = c.get("fault")
        if f:
            # how far does it go without the failure?
            probe = Call(P, net, truth, c)
            s = Sched({"mode": "explicit", "switches": []}, shielded=SHIELD, max_yields=1500000)
            s.spawn(probe.run)
            rand.reset(sc["seed"], sc["stream"])
            r = s.run()[0]
            if r[0] != "ok":
                raise r[1]
            probe.judge(ctx, True)
            same("a call")
            n = s.threads[0].lines if f in ("interrupt", "memory") else probe.calls
            if n == 0:
                continue
            fail_at = 1 + int(c["frac"] * n)
            call = Call(P, net, truth, c, min(fail_at, n))
            s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (min(fail_at, n), f)} if f in ("interrupt", "memory") else None,
                      shielded=SHIELD, max_yields=1500000)
            s.spawn(call.run)
            rand.reset(sc["seed"], sc["stream"])
            r = s.run()[0]
            ctx.fault(f)
            ctx.check(r[0] == "exc" and isinstance(r[1], (CallbackError, SimInterrupt, MemoryError)), "error-swallowed",
                      lambda: "the %s failed at %d of %d, the call gave %r" % (f, fail_at, n, r))
            call.judge(ctx, False)
            same("a call failed in its " + f)
            ctx.check(networkx.Graph is graph, "networkx-changed", "networkx.Graph is replaced after a failed call")
            c = dict(c)
            c.pop("fault")
        rand.reset(sc["seed"] + 1, sc["stream"])
        call = Call(P, net, truth, c)
        call.run()
        want = call.judge(ctx, True)
        same("a call")
        ctx.nontrivial = ctx.nontrivial or bool(want)
        ctx.emit(c["algo"], repr(sorted(c["par"].items())), str(fail_at), repr(show([key(x) for x in call.delivered()])), str(len(want)))


def shrink(sc):
    if sc["mode"] == "threads":
        import checks.c09 as me
        for s in shrink_plan(me, sc):
            yield s
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    if sc["mode"] == "refuse":
        return
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    for i, c in enumerate(sc["calls"]):
        for ch in ({"copy": True}, {"out": "list"}):
            if any(c[k] != v for k, v in ch.items()) and not (c.get("fault") == "callback" and "out" in ch):
                yield dict(sc, calls=sc["calls"][:i] + [dict(c, **ch)] + sc["calls"][i + 1:])
        if "p" in c:
            yield dict(sc, calls=sc["calls"][:i] + [dict((k, v) for k, v in c.items() if k != "p")] + sc["calls"][i + 1:])
