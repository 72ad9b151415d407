"""Measurements of a network in the middle of its history.

One or two networks (worlds) live through histories of edits - by several
writers, with refused writes, replaced layers, networks dropped and begun
again.  In between, measurements are taken: at rest, interrupted at an executed
line and taken again, by simulated threads interleaved at every line, or while
an edit runs (only what is measured afterwards is judged then).  Every result
is compared with the definition, evaluated on the reference model of the
network as it stands.  The caller spoils the containers it was given.

A check using this module has TABLE (list of Measure) and world(rng, tier)
giving the configuration of a network."""
import itertools
import math

from sim import labels, rand
from sim.core import Hang, RealRandom
from sim.sched import Sched
from checks import mux
from checks.common import RefNet, big, lay, link, mk_nl, shrink_plan


class Measure(object):
    def __init__(self, name, fn, ref, post=None, need=None):
        self.name = name
        self.fn = fn              # fn(P, net, args)
        self.ref = ref            # ref(view, args) -> what the result has to be
        self.post = post or (lambda r: r)
        self.need = need or (lambda v: {})     # view -> None or a dict of arguments made with v.rng


class Skip(Exception):
    """The definition gives no value here."""


class View(object):
    """The model of one network, for the references."""

    def __init__(self, world, pick):
        self.kind = world.kind
        self.mux = world.sim.m if world.kind == "mux" else None
        m = world.sim.m
        self.m = m.flat() if self.mux else m
        self.asp = self.m.aspects
        self.directed = self.m.directed
        self.aligned = self.m.aligned
        self.no = self.m.no_edge
        self.nodes = sorted(self.m.nodes, key=repr)
        self.layers = [sorted(l, key=repr) for l in self.m.layers]
        self.nls = sorted(self.m.node_layers(), key=repr)
        self.cfg = world.cfg
        self.rng = RealRandom("pick %d" % pick)
        self._adj = None
        self.cache = {}

    def adj(self):
        if self._adj is None:
            self._adj = {}
            for (a, b), w in self.m.e.items():
                self._adj.setdefault(a, {})[b] = w
        return self._adj

    def nb(self, a):
        return self.adj().get(a, {})

    def name(self, nl):
        """The node-layer as the library names it."""
        return nl[0] if self.asp == 0 else nl


# -- worlds -----------------------------------------------------------------
class MuxWorld(mux.MuxSim):
    def weight(self, kind):
        self.wn += 1
        p = self.sc["weights"]
        return p[self.wn % len(p)]


class MLWorld(object):
    """A general multilayer network and its model."""

    def __init__(self, sc, ctx):
        import pymnet
        self.sc, self.ctx = sc, ctx
        self.node, self.layer = labels.make(sc["labels"], sc["salt"])
        self.noedge = mux.NOEDGES[sc["noedge"]]
        self.net = ctx.call("new", pymnet.MultilayerNetwork, aspects=sc["aspects"], noEdge=self.noedge, directed=sc["directed"], fullyInterconnected=sc["aligned"])
        self.m = RefNet(sc["aspects"], sc["directed"], sc["aligned"], self.noedge)
        self.handles = {}
        self.wn = 0

    def step(self, op):
        ctx, m, net = self.ctx, self.m, self.net
        k, c = op[0], op[1]
        asp = m.aspects
        if k in ("set", "del"):
            a, b = mk_nl(op[3], self.node, self.layer), mk_nl(op[4], self.node, self.layer)
            w = self.noedge
            if k == "set":
                self.wn += 1
                w = self.sc["weights"][self.wn % len(self.sc["weights"])]
            elif not (set([a, b]) <= m.node_layers()):
                return
            form = op[2]

            def write():
                if form == "short" and asp and a[1:] == b[1:]:
                    net[(a[0], b[0]) + a[1:]] = w
                elif form == "node":
                    net[a[0] if asp == 0 else a][b[0] if asp == 0 else b] = w
                elif form == "handle":
                    h = self.handles.setdefault((c, a), net[a[0] if asp == 0 else a])
                    h[b[0] if asp == 0 else b] = w
                else:
                    net[link(a, b)] = w
            ctx.call(k, write)
            m.set(a, b, w)
        elif k == "node":
            a = mk_nl(op[2], self.node, self.layer)
            if op[3] and asp:
                ctx.call("add_node", net.add_node, a[0], layer=lay(a))
                m.add_node(a[0], a[1:])
            else:
                ctx.call("add_node", net.add_node, a[0])
                m.add_node(a[0])
        elif k == "layer":
            ctx.call("add_layer", net.add_layer, self.layer(op[2], op[3]), op[3])
            m.add_layer(self.layer(op[2], op[3]), op[3])
        elif k == "refuse":
            a = mk_nl(op[2], self.node, self.layer)
            try:
                net[tuple(a) + tuple(a) + tuple(a)] = 5
                ctx.fail("not-refused", "a key of %d parts was accepted" % (3 * len(a)))
            except Exception:
                ctx.fault("refused_write")


class World(object):
    def __init__(self, cfg, ctx):
        self.cfg, self.ctx, self.kind = cfg, ctx, cfg["kind"]
        self.restart()

    def restart(self):
        self.sim = None
        self.sim = (MuxWorld if self.kind == "mux" else MLWorld)(self.cfg, self.ctx)

    @property
    def net(self):
        return self.sim.net


def gen_ml(rng, aspects=None, directed=None, aligned=None, weights=None, noedge=0, nn=None, nlay=None, selfloops=True):
    asp = rng.choice([0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 3]) if aspects is None else aspects
    return {"kind": "ml", "aspects": asp, "directed": rng.random() < 0.4 if directed is None else directed,
            "aligned": asp == 0 or (rng.random() < 0.5 if aligned is None else aligned), "noedge": noedge, "labels": rng.choice(labels.MODES),
            "salt": rng.getrandbits(30), "nn": nn or (rng.randint(7, 14) if asp < 2 and big(rng) else rng.randint(2, 6 if asp < 2 else 3 if asp < 3 else 2)),
            "nlay": nlay or (rng.randint(3, 6) if asp == 1 and big(rng) else rng.randint(1, 3 if asp == 1 else 2)),
            "weights": weights or [1, 2, 0.5, 3, 1.5], "loops": selfloops}


def gen_mux(rng, aspects=None, directed=None, aligned=None, weights=None, noedge=0, couplings=None, nn=None, nlay=None):
    cfg = mux.gen_config(rng, aspects)
    cfg.update(kind="mux", noedge=noedge, weights=weights or [1, 2, 0.5, 3, 1.5])
    if directed is not None:
        cfg["directed"] = directed
    if aligned is not None:
        cfg["aligned"] = aligned
    if couplings is not None:
        cfg["couplings"] = [list(rng.choice(couplings)) for _ in range(cfg["aspects"])]
    elif not cfg["directed"]:
        for c in cfg["couplings"]:
            if c[0] == "net" and c[1]:
                c[1] = False
                c[2] = [e for e in c[2] if e[0] < e[1]]
    if nn:
        cfg["nn"] = nn
    if nlay:
        cfg["nlay"] = nlay
    return cfg


def gen_ml_ops(rng, cfg, n):
    asp = cfg["aspects"]
    nl = lambda: [rng.randrange(cfg["nn"])] + [rng.randrange(cfg["nlay"]) for _ in range(asp)]
    ops = []
    recent = []
    dele = rng.choice([0.05, 0.2, 0.4])
    for _ in range(n):
        c = rng.randrange(3)
        r = rng.random()
        if r < 0.8:
            if recent and rng.random() < 0.25:
                a, b = rng.choice(recent)
                if rng.random() < 0.4:
                    a, b = b, a
            else:
                a = nl()
                b = nl()
                if rng.random() < 0.4:
                    b[1:] = a[1:]
                if a == b and (not cfg["loops"] or rng.random() < 0.6):
                    b = [(a[0] + 1) % cfg["nn"]] + a[1:]
            if a == b and not cfg["loops"]:
                continue
            recent.append((a, b))
            ops.append(["del" if rng.random() < dele else "set", c, rng.choice(["full", "full", "short", "node", "handle"]), a, b])
        elif r < 0.88:
            ops.append(["node", c, nl(), rng.random() < 0.6])
        elif r < 0.94 and asp:
            ops.append(["layer", c, rng.randrange(cfg["nlay"]), rng.randint(1, asp)])
        else:
            ops.append(["refuse", c, nl()])
    return ops


def gen_ops(rng, cfg, n):
    if cfg["kind"] == "mux":
        return [o for o in mux.gen_ops(rng, cfg, n) if o[0] not in ("iter", "step")]
    return gen_ml_ops(rng, cfg, n)


# -- scenarios --------------------------------------------------------------
def large(cfg):
    return cfg["nn"] > 6 or cfg["aspects"] == 1 and cfg["nlay"] > 4


def generate(check, rng, tier):
    worlds = [check.world(rng, tier) for _ in range(rng.choice([1, 1, 1, 2]))]
    if len(worlds) == 2:
        worlds[1]["labels"], worlds[1]["salt"] = worlds[0]["labels"], worlds[0]["salt"]
    steps = []
    for w, cfg in enumerate(worlds):
        steps += [["do", w, o] for o in gen_ops(rng, cfg, rng.choice([3, 10, 20, 20, 30]) + (40 if large(cfg) else 0))]
    ask = lambda: [rng.randrange(len(worlds)), rng.getrandbits(20), rng.getrandbits(30)]
    again = []
    heavy = rng.choice([None, None, None, "fault", "threads", "race"])
    if any(large(cfg) for cfg in worlds):
        heavy = None                    # too long when every line is scheduled
    rounds = rng.randint(1, 6) if heavy is None else rng.randint(1, 2)
    for r in range(rounds):
        if r and rng.random() < 0.1:
            w = rng.randrange(len(worlds))
            steps.append(["new", w])
            steps += [["do", w, o] for o in gen_ops(rng, worlds[w], rng.choice([5, 15]))]
        for _ in range(rng.randint(1, 3) if heavy else rng.randint(2, 6)):
            q = rng.choice(again) if again and rng.random() < 0.5 else ask()      # the same question again
            again.append(q)
            steps.append(["ask"] + q)
        q = rng.choice(again)
        if heavy == "fault":
            steps.append(["fault"] + q + [round(rng.random(), 4), rng.choice(["interrupt", "memory"])])
        elif heavy == "threads":
            qs = [q, rng.choice([q, ask()])] + ([ask()] if rng.random() < 0.3 else [])
            steps.append(["threads", qs, {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.02, 0.15, 0.5])}])
        elif heavy == "race":
            w = q[0]
            steps.append(["race"] + q + [gen_ops(rng, worlds[w], 3), {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.02, 0.15, 0.5])}])
        w = rng.randrange(len(worlds))
        steps += [["do", w, o] for o in gen_ops(rng, worlds[w], rng.choice([0, 1, 1, 3, 6]))]
        if heavy:
            steps.append(["ask"] + q)
    return {"worlds": worlds, "steps": steps, "spoil": rng.random() < 0.5}


def spoil(x, depth=0):
    """What a caller may do with a container it was given."""
    if depth > 2:
        return
    if type(x) in (dict, list):
        for v in (list(x.values()) if isinstance(x, dict) else list(x)):
            spoil(v, depth + 1)
        if isinstance(x, dict):
            for k in list(x)[::2]:
                x[k] = "spoilt"
        else:
            x[:] = x[:1] + ["spoilt"]
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif hasattr(x, "flags") and hasattr(x, "shape"):
        try:
            x[...] = 77
        except Exception:
            pass
    elif hasattr(x, "edges") and hasattr(x, "slices"):
        for e in list(x.edges)[:2]:
            x[tuple(e[:-1])] = 77


def choose(check, world, code, pick):
    """A measure that is defined on the network as it stands."""
    order = list(check.TABLE)
    RealRandom("choose %d" % code).shuffle(order)
    for me in order:
        v = View(world, pick)
        a = me.need(v)
        if a is not None:
            return me, v, a
    return None


def agree(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-11)
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and agree(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def execute(check, sc, ctx):
    import pymnet as P
    rand.reset(1, "mt", 1000000)
    worlds = [World(cfg, ctx) for cfg in sc["worlds"]]

    def judge(me, v, a, r, when):
        ctx.steps += 1
        try:
            want = v.cache["want"] if "want" in v.cache else v.cache.setdefault("want", me.ref(v, a))
        except Skip:
            ctx.hit("undefined:" + me.name)
            return
        got = ctx.call("result-of-" + me.name, me.post, r)
        ctx.check(agree(got, want), me.name, lambda: "%s%r: %r, by definition %r; network %r" % (when, dict((k, x) for k, x in a.items() if k[0] != "_"), got, want, sorted(v.m.e.items(), key=repr)))
        ctx.hit("judged:" + me.name)
        if want not in (None, 0, {}, [], ()):
            ctx.hit("value:" + me.name)
        ctx.emit(me.name, repr(sorted(((k, x) for k, x in a.items() if k[0] != "_"), key=repr)), repr(got))
        if v.m.e:
            ctx.nontrivial = True
        if sc["spoil"]:
            spoil(r)

    def defined(me, v, a):
        try:
            v.cache["want"] = me.ref(v, a)
            return True
        except Skip:
            return False

    for st in sc["steps"]:
        if st[0] == "do":
            worlds[st[1]].sim.step(st[2])
        elif st[0] == "new":
            worlds[st[1]].restart()
            ctx.hit("network_begun_again")
        elif st[0] == "ask":
            c = choose(check, worlds[st[1]], st[2], st[3])
            if c and defined(*c):
                me, v, a = c
                judge(me, v, a, ctx.call(me.name, me.fn, P, worlds[st[1]].net, a), "")
        elif st[0] == "fault":
            c = choose(check, worlds[st[1]], st[2], st[3])
            if not c or not defined(*c):
                continue
            me, v, a = c
            net = worlds[st[1]].net
            s = Sched({"mode": "explicit", "switches": []}, max_yields=1500000)
            s.spawn(lambda: me.fn(P, net, a))
            k, r = s.run()[0]
            if k == "exc":
                raised(ctx, me, r)
            judge(me, v, a, r, "")
            lines = s.threads[0].lines
            if not lines:
                continue
            s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (min(lines, 1 + int(st[4] * lines)), st[5])}, max_yields=1500000)
            s.spawn(lambda: me.fn(P, net, a))
            s.run()
            if s.fired:
                ctx.fault(st[5])
            judge(me, v, a, ctx.call(me.name, me.fn, P, net, a), "after an interrupted call ")
        elif st[0] == "threads":
            cs = [(q[0], choose(check, worlds[q[0]], q[1], q[2])) for q in st[1]]
            cs = [(w, c) for w, c in cs if c and defined(*c)]
            if not cs:
                continue
            s = Sched(st[2], max_yields=3000000)
            for w, (me, v, a) in cs:
                s.spawn(lambda me=me, a=a, w=w: me.fn(P, worlds[w].net, a))
            res = s.run()
            ctx.hit("thread_switches", len(s.switches))
            for (w, (me, v, a)), (k, r) in zip(cs, res):
                if k == "exc":
                    raised(ctx, me, r)
                judge(me, v, a, r, "next to other threads ")
        elif st[0] == "race":
            c = choose(check, worlds[st[1]], st[2], st[3])
            if not c:
                continue
            me, v, a = c
            w = worlds[st[1]]
            s = Sched(st[5], max_yields=1500000)

            def edit():
                for o in st[4]:
                    w.sim.step(o)
            s.spawn(lambda: me.fn(P, w.net, a))
            s.spawn(edit)
            res = s.run()
            if res[1][0] == "exc":
                raise res[1][1]
            if res[0][0] == "exc" and isinstance(res[0][1], Hang):
                raise res[0][1]
            ctx.fault("edited_while_measured")


def raised(ctx, me, e):
    if isinstance(e, (Hang, rand.DrawBudget)):
        raise e
    ctx.fail("exception:%s:%s" % (me.name, type(e).__name__), str(e))


def shrink(check, sc):
    for i, st in enumerate(sc["steps"]):
        put = lambda *new: dict(sc, steps=sc["steps"][:i] + list(new) + sc["steps"][i + 1:])
        if st[0] in ("fault", "race"):
            yield put(["ask"] + st[1:4])
        if st[0] == "threads":
            for k in range(len(st[1])):
                if len(st[1]) > 1:
                    yield put(["threads", st[1][:k] + st[1][k + 1:], st[2]])
            yield put(*[["ask"] + q for q in st[1]])
    if sc["spoil"]:
        yield dict(sc, spoil=False)
    for i, cfg in enumerate(sc["worlds"]):
        for k, x in (("labels", "int"), ("directed", False), ("aligned", True), ("weights", [1])):
            if cfg[k] != x and not (k == "weights" and 1 not in cfg[k]):
                yield dict(sc, worlds=sc["worlds"][:i] + [dict(cfg, **{k: x})] + sc["worlds"][i + 1:])


def bag(x):
    return sorted(x, key=repr)


def net_edges(net):
    """Links of a network the library made: {(end, end): weight}."""
    asp = net.aspects
    return dict(((tuple(e[2 * k] for k in range(asp + 1)), tuple(e[2 * k + 1] for k in range(asp + 1))), e[-1]) for e in map(tuple, net.edges))
