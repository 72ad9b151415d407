"""C10: wrapped networkx calls leave networkx and their inputs alone and give
what networkx gives.

Modes
  seq       a sequence of wrapped calls (errors, nested calls, raising callbacks)
            mixed with plain networkx calls
  fault     a wrapped call interrupted at a chosen executed line of networkx or
            of the library's network code, then repeated
  threads   wrapped and plain calls in simulated threads, switching at any
            executed line of the wrapper, the network and networkx
"""
import os

from sim import rand
from sim.core import SimInterrupt, freeze, net_snapshot
from sim.sched import Sched
from checks import nets, nxfun
from checks.common import shrink_plan

USES_TRACE = True
SHRINK = ("calls",)
SHIELD = ("nxwrap.py",)


class CallbackError(Exception):
    pass


def generate(rng, tier):
    mode = rng.choice(["seq", "seq", "seq", "fault", "threads", "threads"])
    if rng.random() < 0.01:
        mode = "tempnode"
    sp = nets.gen(rng, "mono", nn=rng.randint(2, 5 if mode == "threads" else 6), directed=False)
    if rng.random() < 0.2:
        i = rng.randrange(sp["nn"])
        sp["edges"].append([[i], [i], 1])
    sc = {"mode": mode, "net": sp, "seed": rng.getrandbits(40), "directed": rng.random() < 0.1}
    n = {"seq": rng.randint(8, 20), "fault": rng.randint(1, 4), "threads": rng.randint(2, 3), "tempnode": 1}[mode]
    sc["calls"] = []
    for _ in range(n):
        c = {"f": rng.getrandbits(20), "pick": rng.getrandbits(12), "how": rng.choice(["net", "net", "net", "view", "plain"]) if mode != "fault" else "net",
             "kw": rng.random() < 0.2, "cb": rng.random() < 0.3, "bulk": rng.random() < 0.4,
             "cbdo": rng.choice(["none", "nested", "nested", "raise", "interrupt", "nestederr"]), "cbf": rng.getrandbits(20), "cbn": rng.randint(1, 4)}
        if mode == "fault":
            c["frac"] = round(rng.random(), 4)
            c["exc"] = rng.choice(["interrupt", "memory"])
        sc["calls"].append(c)
    if mode == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.02, 0.1, 0.3, 0.6])}
        sc["nxlines"] = rng.random() < 0.5
        for c in sc["calls"]:
            c["how"] = rng.choice(["net", "net", "plain"])
    return sc


def content(net):
    return [n for n in net], [tuple(e) for e in net.edges]


class World(object):
    def __init__(self, sc, ctx):
        import networkx
        import pymnet
        self.P, self.X, self.nx = pymnet, networkx, pymnet.nx
        self.ctx = ctx
        self.table = nxfun.table()
        self.modules = dict((k, dict(v.__dict__)) for k, v in nx_modules())
        self.Graph = networkx.Graph
        self.net = nets.build(pymnet, sc["net"])
        nodes, edges = content(self.net)
        self.nodes, self.edges = nodes, edges
        self.g = nxfun.same_order(networkx, self.net)
        self.bulk = nxfun.bulk()
        self.snap = freeze(self.net)
        self.gsnap = nxfun.as_graph(self.g)

    def pick(self, c, code=None, cb=None):
        s = nxfun.Sel(self.nodes, self.edges, c["pick"], cb)
        if code is None and c.get("bulk") and not c["cb"]:
            pool = self.bulk
            code = c["f"]
        elif code is None:
            pool = [f for f in self.table if f.cb == bool(c["cb"]) and f.need(s)]
            code = c["f"]
        else:
            pool = [f for f in self.table if not f.cb and f.need(s)]
        return pool[code % len(pool)], s

    def intact(self, what):
        for k, v in nx_modules():
            old = self.modules.get(k)
            if old is None:
                continue
            now = v.__dict__
            for name in old:
                self.ctx.check(name in now and now[name] is old[name], "networkx-changed:" + name,
                               lambda: "after %s, %s.%s is %r" % (what, k, name, now.get(name)))
            for name in now:
                self.ctx.check(name in old or hasattr(now[name], "__path__") or type(now[name]).__name__ == "module" or name.startswith("__"), "networkx-changed:" + name,
                               lambda: "after %s, %s has a new attribute %s" % (what, k, name))
        self.ctx.check(type(self.X.Graph()) is self.Graph, "networkx-not-plain", "networkx.Graph() gives a %s" % type(self.X.Graph()))
        g = self.X.path_graph(3)
        self.ctx.check(type(g) is self.Graph, "networkx-not-plain", "networkx.path_graph gives a %s after %s" % (type(g), what))
        self.ctx.check(isinstance(g, self.X.Graph), "networkx-not-plain", "a plain graph is no networkx.Graph")
        self.ctx.check(net_snapshot(self.net) == self.snap, "network-changed", lambda: "by %s" % what)
        self.ctx.check(nxfun.as_graph(self.g) == self.gsnap, "plain-graph-changed", lambda: "by %s" % what)

    def plain(self, f, s):
        rand.reset(7)
        return nxfun.outcome(f, self.X, self.X, self.g, s)[0]

    def wrapped(self, f, s, how="net", kw=False):
        G = self.net if how == "net" else self.nx.autowrap(self.net)
        return nxfun.outcome(f, nxfun.KwModule(self.nx) if kw else self.nx, self.X, G, s)

    def check_result(self, f, want, got, raw, how):
        self.ctx.check(got == want, "wrong-result:" + f.name, lambda: "wrapped %r, networkx on the plain graph %r" % (got, want))
        if f.graph and got[0] == "ok":
            self.ctx.check(type(raw) is self.P.MultilayerNetwork, "graph-type:" + f.name, "returned a %s" % type(raw))
            self.ctx.check(raw.aspects == 0 and not raw.directed, "graph-type:" + f.name, "not a monoplex network")


def nx_modules():
    import sys
    return [(k, sys.modules[k]) for k in sorted(sys.modules) if k in NXMODS and sys.modules[k] is not None]


NXMODS = ("networkx", "networkx.classes", "networkx.classes.graph", "networkx.classes.function", "networkx.generators",
          "networkx.generators.classic", "networkx.convert", "networkx.algorithms", "networkx.relabel", "networkx.classes.graphviews")


def execute(sc, ctx):
    rand.reset(sc["seed"])
    w = World(sc, ctx)
    w.intact("start")
    if sc["directed"]:
        d = w.P.MultilayerNetwork(aspects=0, directed=True)
        d[1, 2] = 1
        m = w.P.MultilayerNetwork(aspects=1)
        m[1, 2, "a", "a"] = 1
        for bad in (d, m):
            try:
                w.nx.density(bad)
            except AssertionError:
                pass
            else:
                ctx.fail("accepted-unsupported", "density of %r" % bad)
            w.intact("refused call")
    {"seq": seq, "fault": fault, "threads": threads, "tempnode": tempnode}[sc["mode"]](w, sc, ctx)
    ctx.nontrivial = len(sc["net"]["edges"]) > 0


def callback(w, c, ctx):
    """What the caller's function does the cbn-th time networkx calls it."""
    left = [c["cbn"]]

    def cb(m):
        left[0] -= 1
        if left[0] != 0 or m is not w.nx:
            return
        do = c["cbdo"]
        ctx.hit("callback:" + do)
        if do == "raise":
            raise CallbackError("injected")
        if do == "interrupt":
            raise SimInterrupt("injected")
        if do in ("nested", "nestederr"):
            f, s = w.pick(c, c["cbf"])
            if do == "nestederr":
                f = [x for x in w.table if x.name.startswith("err:")][c["cbf"] % 9]
            got, raw = w.wrapped(f, s)
            ctx.emit("nested", f.name, got[0])
            nested.append((f, s, got, raw))
    nested = []
    return cb, nested


def seq(w, sc, ctx):
    for c in sc["calls"]:
        cb, nested = callback(w, c, ctx)
        f, s = w.pick(c, cb=cb)
        ctx.steps += 1
        if c["how"] == "plain":
            r = nxfun.outcome(f, w.X, w.X, w.g, s)
            if f.graph and r[0][0] == "ok":
                ctx.check(isinstance(r[1], w.Graph) and type(r[1]).__module__.startswith("networkx"), "networkx-not-plain", "plain %s gives a %s" % (f.name, type(r[1])))
            ctx.emit("plain", f.name, r[0][0])
        else:
            want = w.plain(f, s)
            rand.reset(7)
            interrupted = False
            try:
                got, raw = w.wrapped(f, s, c["how"], c["kw"] and not c["cb"])
            except SimInterrupt:
                interrupted = True
            if interrupted:
                ctx.fault("interrupt")
                ctx.emit("interrupted", f.name)
            elif got == ("exc", "CallbackError"):
                ctx.fault("callback_error")
                ctx.emit("raised", f.name)
            else:
                w.check_result(f, want, got, raw, c["how"])
                ctx.emit(f.name, repr(got)[:80])
            ctx.hit("ran:" + f.name)
            if not interrupted and got[0] == "exc":
                ctx.hit("raised")
        w.intact(f.name)
        for f2, s2, got2, raw2 in nested:
            rand.reset(7)
            want2 = w.plain(f2, s2)
            w.check_result(f2, want2, got2, raw2, "net")
            ctx.hit("nested")


def tempnode(w, sc, ctx):
    """networkx.negative_edge_cycle adds a node for the time of the call."""
    try:
        w.nx.negative_edge_cycle(w.net)
    except Exception as e:
        ctx.emit(type(e).__name__)
    ctx.steps += 1
    ctx.check(net_snapshot(w.net) == w.snap, "network-changed:negative_edge_cycle", "it has a node more")
    w.intact("negative_edge_cycle")


def prefixes(nxlines=True):
    from sim.core import PYMNET_DIR
    import networkx
    p = [PYMNET_DIR]
    if nxlines:
        p.append(os.path.dirname(networkx.__file__) + os.sep)
    return p


def fault(w, sc, ctx):
    for c in sc["calls"]:
        f, s = w.pick(dict(c, cb=False))
        want = w.plain(f, s)
        rand.reset(7)
        sch = Sched({"mode": "explicit", "switches": []}, shielded=SHIELD, prefixes=prefixes())
        sch.spawn(lambda: w.wrapped(f, s))
        r = sch.run()[0]
        lines = sch.threads[0].lines
        if r[0] != "ok":
            ctx.fail("exception:" + f.name, repr(r[1]))
        w.check_result(f, want, r[1][0], r[1][1], "net")
        w.intact(f.name)
        if lines == 0:
            continue
        k = min(lines, 1 + int(c["frac"] * lines))
        rand.reset(7)
        sch = Sched({"mode": "explicit", "switches": []}, interrupts={0: (k, c["exc"])}, shielded=SHIELD, prefixes=prefixes())
        sch.spawn(lambda: f.fn(w.nx, w.net, s))
        sch.run()
        if sch.fired:
            ctx.fault(c["exc"])
        ctx.steps += 1
        w.intact(f.name + " interrupted")
        rand.reset(7)
        got, raw = w.wrapped(f, s)
        w.check_result(f, want, got, raw, "net")
        w.intact(f.name)
        ctx.emit(f.name, str(k), str(lines), got[0])


def threads(w, sc, ctx):
    jobs = []
    for c in sc["calls"]:
        f, s = w.pick(dict(c, cb=False))
        jobs.append((f, s, c["how"], w.plain(f, s)))
    rand.reset(7)
    sch = Sched(sc["plan"], prefixes=prefixes(sc["nxlines"]), max_yields=400000)
    for f, s, how, want in jobs:
        if how == "plain":
            sch.spawn(lambda f=f, s=s: nxfun.outcome(f, w.X, w.X, w.g, s))
        else:
            sch.spawn(lambda f=f, s=s: w.wrapped(f, s))
    res = sch.run()
    ctx.steps += sch.yields
    ctx.hit("thread_switches", len(sch.switches))
    for (f, s, how, want), r in zip(jobs, res):
        if r[0] != "ok":
            ctx.fail("thread:" + f.name, repr(r[1]))
        got, raw = r[1]
        if how == "plain":
            ctx.check(got == want, "plain-result:" + f.name, lambda: "next to wrapped calls %r, alone %r" % (got, want))
            if f.graph and got[0] == "ok":
                ctx.check(isinstance(raw, w.Graph) and not isinstance(raw, w.nx.MonoplexGraphNetworkxView), "networkx-not-plain",
                          "plain %s in another thread gives a %s" % (f.name, type(raw)))
        else:
            w.check_result(f, want, got, raw, "net")
        ctx.hit("threaded:" + how)
    w.intact("threads " + "+".join(j[0].name for j in jobs))
    ctx.emit("threads", "+".join(j[0].name + ":" + j[2] for j in jobs), repr(sch.switches[:50]), str(sch.yields))


def shrink(sc):
    if sc["directed"]:
        yield dict(sc, directed=False)
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    for i, c in enumerate(sc["calls"]):
        if c["cb"] and c["cbdo"] != "none":
            yield dict(sc, calls=sc["calls"][:i] + [dict(c, cbdo="none")] + sc["calls"][i + 1:])
    if sc["mode"] == "threads":
        import sys
        for c in shrink_plan(sys.modules[__name__], sc):
            yield c
