"""C16: layouts are complete, finite and inside the box.

Calls of the layout functions under simulated random streams (boundary values,
repeats and squeezed values make initial positions coincide), alone, from
several threads, or interrupted at a drawn line and then repeated."""
import copy
import math

from sim import rand
from sim.core import Hang, RealRandom, freeze, net_snapshot
from sim.sched import Sched
from checks import nets
from checks.common import asnl, big, shrink_plan

USES_TRACE = True
SHRINK = ("calls",)


def generate(rng, tier):
    sp = nets.gen(rng, rng.choice(["ml1", "ml1", "mux1", "mux1"]), nn=rng.randint(7, 25) if big(rng) else rng.randint(1, 6), noedge=[0, 0, 0, -1])
    if rng.random() < 0.05:
        sp.update(nn=0, nls=[], edges=[])
    if sp["kind"] == "ml1" and sp["nls"] and rng.random() < 0.2:
        x = rng.choice(sp["nls"])
        sp["edges"].append([x, list(x), 2])
    for e in sp["edges"]:
        if rng.random() < 0.1:
            e[2] = rng.choice([-1, 1e6, 1e-6])
    mode = rng.choice(["plain", "plain", "plain", "threads", "interrupt"])
    calls = [gen_call(rng, sp) for _ in range(rng.randint(1, 3) if mode != "threads" else 2)]
    sc = {"net": sp, "mode": mode, "seed": rng.getrandbits(40), "stream": rng.choice(rand.MODES + ("sticky", "edge")), "calls": calls}
    if mode == "threads":
        for c in calls:
            c["iter"] = min(c.get("iter", 1), 2)
            if c["f"] == "layout":
                c["name"] = "random"
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(40), "p": rng.choice([0.01, 0.1, 0.5])}
    if mode == "interrupt":
        sc["at"] = round(rng.random(), 4)
    return sc


def point(rng, how):
    if how == "same":
        return [0.5, 0.5]
    if how == "line":
        return [rng.random(), 0.25]
    if how == "wide":
        return [rng.uniform(-1e3, 1e3), rng.uniform(-1e3, 1e3)]
    if how == "ints":
        return [rng.randint(-1, 2), rng.randint(0, 1)]
    return [rng.random(), rng.random()]


def gen_call(rng, sp):
    r = rng.random()
    if r < 0.6:
        how = rng.choice(["unit", "same", "line", "wide", "ints", "near"])
        c = {"f": "fr", "aligned": rng.random() < 0.5, "iter": rng.choice([1, 1, 2, 3, 10, 30]),
             "box": rng.choice([None, 1.0, 2, [1.0, 3.0], [5, 0.5], 0.01, 100.0]), "boxform": rng.choice(["tuple", "list"]),
             "dist": rng.choice([None, None, "auto", 0.1, 1, 10.0, 1e-3]), "coords": None, "nlcoords": None, "fixed": None, "fixednl": None}
        if rng.random() < 0.5:
            c["coords"] = [[n] + point(rng, how) for n in range(sp["nn"]) if rng.random() < 0.7]
        if rng.random() < 0.5:
            c["nlcoords"] = [[list(x)] + point(rng, how) for x in sp["nls"] if rng.random() < 0.7]
        if rng.random() < 0.3:
            c["fixed"] = [n for n in range(sp["nn"]) if rng.random() < 0.5]
        if rng.random() < 0.3:
            c["fixednl"] = [x for x in sp["nls"] if rng.random() < 0.5]
        return c
    if r < 0.85:
        return {"f": "layout", "name": rng.choice(["fr", "fr", "random", "circular", "shell", "spring"]), "aligned": rng.choice([True, False, None])}
    how = rng.choice(["unit", "same", "line", "wide", "ints"])
    return {"f": "normalize", "coords": [[n] + point(rng, how) for n in range(rng.randint(0, 6))], "box": rng.choice([[1.0, 1.0], [2, 3], [0.1, 1e6]]), "inplace": rng.random() < 0.5}


def coords_ok(ctx, r, keys, box, what):
    ctx.check(isinstance(r, dict), "not-a-dict:" + what, repr(type(r)))
    ctx.check(sorted(map(repr, r)) == sorted(map(repr, keys)), "incomplete:" + what, lambda: "coordinates for %r, expected %r" % (sorted(map(repr, r)), sorted(map(repr, keys))))
    for k in keys:
        p = r[k]
        ctx.check(len(p) == 2, "not-a-pair:" + what, lambda: "%r: %r" % (k, p))
        for i in (0, 1):
            v = float(p[i])
            ctx.check(math.isfinite(v), "not-finite:" + what, lambda: "%r: %r" % (k, p))
            if box is not None:
                ctx.check(0.0 <= v <= box[i], "outside-box:" + what, lambda: "%r: %r, box %r" % (k, p, box))


class Call(object):
    def __init__(self, P, ctx, net, sp, c):
        self.P, self.ctx, self.net, self.sp, self.c = P, ctx, net, sp, c
        node, layer = nets.labelled(sp)
        self.nodes = [node(n) for n in range(sp["nn"])]
        self.nls = [tuple(x) for x in net.iter_node_layers()]
        if c["f"] == "fr":
            self.coords = dict((node(x[0]), (x[1], x[2])) for x in c["coords"]) if c["coords"] is not None else None
            self.nlcoords = dict((nets.tup(x[0], node, layer), (x[1], x[2])) for x in c["nlcoords"]) if c["nlcoords"] is not None else None
            if sp["aligned"] and c["aligned"]:
                self.nlcoords = None
            self.fixed = set(node(n) for n in c["fixed"]) if c["fixed"] is not None else None
            self.fixednl = set(nets.tup(x, node, layer) for x in c["fixednl"]) if c["fixednl"] is not None else None
            self.args = (self.coords, self.nlcoords, self.fixed, self.fixednl)
        elif c["f"] == "normalize":
            self.coords = dict((n, (x, y)) for n, x, y in c["coords"])
            self.args = (self.coords,)
        else:
            self.args = ()
        self.keep = copy.deepcopy(self.args)

    def allowed(self):
        c = self.c
        if c["f"] == "layout" and c["name"] in ("circular", "shell", "spring"):
            al = c["aligned"] if c["aligned"] is not None else self.sp["kind"] == "mux1"
            return al and not self.sp["directed"] and self.sp["nn"] > 0
        return True

    def do(self):
        c, L = self.c, self.P.visuals.layouts
        if c["f"] == "fr":
            k = {"alignedNodes": c["aligned"], "iterations": c["iter"]}
            if c["box"] is not None:
                k["boxSize"] = c["box"] if not isinstance(c["box"], list) else (tuple(c["box"]) if c["boxform"] == "tuple" else list(c["box"]))
            if c["dist"] is not None:
                k["nodeDist"] = c["dist"]
            for n, v in (("nodeCoords", self.coords), ("nodelayerCoords", self.nlcoords), ("fixedNodes", self.fixed), ("fixedNodeLayers", self.fixednl)):
                if v is not None:
                    k[n] = v
            return L.get_fruchterman_reingold_multilayer_layout(self.net, **k)
        if c["f"] == "layout":
            return L.get_layout(c["name"], self.net, alignedNodes=c["aligned"])
        return L.normalize_coordinates(self.coords, tuple(c["box"]), inplace=c["inplace"])

    def untouched(self):
        if self.c["f"] == "normalize" and self.c["inplace"]:
            return
        self.ctx.check(self.args == self.keep, "argument-changed", lambda: "%r, was %r" % (self.args, self.keep))

    def judge(self, r):
        c, ctx = self.c, self.ctx
        if c["f"] == "fr":
            b = c["box"] if c["box"] is not None else 1.0
            coords_ok(ctx, r, self.nodes if c["aligned"] else self.nls, tuple(b) if isinstance(b, list) else (b, b), "fr")
            ctx.check(r is not self.coords and r is not self.nlcoords, "argument-returned", "the result is the caller's dictionary")
        elif c["f"] == "layout":
            al = c["aligned"] if c["aligned"] is not None else self.sp["kind"] == "mux1"
            ctx.check(len(r) == 2, "not-a-pair:layout", repr(r))
            coords_ok(ctx, r[0], self.nodes if al else [], (1.0, 1.0) if c["name"] in ("fr", "random") else None, c["name"])
            coords_ok(ctx, r[1], [] if al else self.nls, (1.0, 1.0), c["name"])
        else:
            old = self.keep[0]
            coords_ok(ctx, r, list(old), c["box"], "normalize")
            ctx.check((r is self.coords) == c["inplace"], "inplace", "")
            for i in (0, 1):
                v = [p[i] for p in old.values()]
                if not v:
                    continue
                lo, hi = min(v), max(v)
                for k, p in old.items():
                    want = c["box"][i] * (p[i] - lo) / (hi - lo) if hi > lo else 0.0
                    ctx.check(abs(r[k][i] - want) <= 1e-9 * c["box"][i], "not-linear", lambda: "%r became %r, expected %r" % (p, r[k], want))
        self.untouched()
        ctx.hit("judged:" + c["f"])


def rounded(r):
    if isinstance(r, dict):
        return sorted((repr(k), repr([float(x) for x in v])) for k, v in r.items())
    return [rounded(x) for x in r]


def execute(sc, ctx):
    import pymnet as P
    import pymnet.visuals.layouts  # noqa
    sp = sc["net"]
    net = nets.build(P, sp)
    snap = freeze(net)
    rand.reset(sc["seed"], sc["stream"], 100000)
    calls = [c for c in (Call(P, ctx, net, sp, c) for c in sc["calls"]) if c.allowed()]

    def same():
        ctx.check(net_snapshot(net) == snap, "network-changed", lambda: "%r, was %r" % (net_snapshot(net), snap))

    if sc["mode"] == "threads":
        s = Sched(sc["plan"], max_yields=3000000)
        for c in calls:
            s.spawn(c.do)
        for c, (k, v) in zip(calls, s.run() if calls else []):
            if k == "exc":
                if isinstance(v, Hang):
                    raise v
                ctx.fail("exception:%s:%s" % (c.c["f"], type(v).__name__), str(v))
            c.judge(v)
    else:
        for n, c in enumerate(calls):
            if sc["mode"] == "interrupt" and n == 0:
                interrupted(sc, ctx, c)
                same()
                c.untouched()
                if c.c["f"] == "normalize" and c.c["inplace"]:
                    continue
            rand.reset(sc["seed"] + n, sc["stream"], 100000)
            r = ctx.call(c.c["f"], c.do)
            c.judge(r)
            same()
            if c.c["f"] != "normalize" and c.c.get("name") != "spring":
                rand.reset(sc["seed"] + n, sc["stream"], 100000)
                again = ctx.call(c.c["f"], c.do)
                ctx.check(rounded(again) == rounded(r), "not-repeatable", "the same call with the same random stream gave other coordinates")
            ctx.emit(c.c["f"], repr(rounded(r)) if c.c.get("name") != "spring" else "spring")
    same()
    ctx.steps += len(calls)
    ctx.nontrivial = bool(calls) and sp["nn"] > 1


def interrupted(sc, ctx, c):
    if c.c["f"] == "normalize" and c.c["inplace"]:
        return
    s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (1 + int(sc["at"] ** 3 * 4000), "interrupt")})
    s.spawn(c.do)
    s.run()
    if s.fired:
        ctx.fault("interrupt")


def shrink(sc):
    if sc["mode"] == "threads":
        import checks.c16 as me
        for s in shrink_plan(me, sc):
            yield s
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    if sc["mode"] == "interrupt":
        yield dict(sc, mode="plain")
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp, calls=[cut(c, sp) for c in sc["calls"]])
    for i, c in enumerate(sc["calls"]):
        for k in ("coords", "nlcoords", "fixed", "fixednl", "dist", "box"):
            if c["f"] == "fr" and c.get(k) is not None:
                yield dict(sc, calls=sc["calls"][:i] + [dict(c, **{k: None})] + sc["calls"][i + 1:])
        if c.get("iter", 1) > 1:
            yield dict(sc, calls=sc["calls"][:i] + [dict(c, iter=1)] + sc["calls"][i + 1:])


def cut(c, sp):
    if c["f"] != "fr":
        return c
    ns, nl = set(range(sp["nn"])), set(map(repr, sp["nls"]))
    c = dict(c)
    if c["coords"] is not None:
        c["coords"] = [x for x in c["coords"] if x[0] in ns]
    if c["fixed"] is not None:
        c["fixed"] = [x for x in c["fixed"] if x in ns]
    if c["nlcoords"] is not None:
        c["nlcoords"] = [x for x in c["nlcoords"] if repr(x[0]) in nl]
    if c["fixednl"] is not None:
        c["fixednl"] = [x for x in c["fixednl"] if repr(x) in nl]
    return c
