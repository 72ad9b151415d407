"""C15: iterating over subnetworks yields every subnetwork exactly once.

Several consumers walk subnetwork iterators of one or two networks, in an
interleaving the simulator draws (at item granularity, or at every line when
the consumers are threads); they modify what they receive, keep it, stop early
or are interrupted in the middle of a step."""
import collections
import itertools

from sim.core import Hang, SimInterrupt, freeze, net_snapshot
from sim.sched import Sched
from checks import c01, nets
from checks.c05 import flat, m_subnet, model_of, model_snapshot
from checks.common import RefMux, big, link, shrink_plan

USES_TRACE = True
SHRINK = ("steps",)
CAP = 500
KINDS = ["mono", "mono", "ml1", "ml1", "ml2", "mux1", "mux1", "mux1", "mux2"] * 2 + ["ml3", "mux3"]


def generate(rng, tier):
    sps = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(KINDS)
        sp = nets.gen(rng, k, nn=rng.randint(4, 5) if k[-1] == "1" and big(rng) else rng.randint(1, 4 if k == "mono" else (3 if k[-1] == "1" else 2)), nlay=rng.randint(1, 3) if k[-1] == "1" else None)
        cap = rng.choice([0, 2, 4, 6] + ([8] if tier != "quick" else []))
        if len(sp["edges"]) > cap:
            sp["edges"] = rng.sample(sp["edges"], cap)
        if k.startswith("ml") and rng.random() < 0.2 and sp["nls"]:
            x = rng.choice(sp["nls"])
            sp["edges"].append([x, list(x), 2])
        sp["noedge"] = rng.choice([0, 0, 0, -1, None])
        if sp["noedge"] != 0:
            for e in sp["edges"]:
                e[2] = rng.choice([0, e[2]])
        sps.append(sp)
    for sp in sps[1:]:
        sp["labels"], sp["salt"] = sps[0]["labels"], sps[0]["salt"]
    cons = []
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(sps))
        asp = sps[i]["aspects"]
        rem = [a for a in range(asp + 1) if rng.random() < 0.6]
        rng.shuffle(rem)
        cons.append({"net": i, "remove": rem, "edges": rng.random() < 0.6, "arg": rng.choice(["list", "list", "tuple", "default"])})
    sc = {"nets": sps, "consumers": cons, "mode": rng.choice(["items", "items", "items", "threads", "interrupt"])}
    if sc["mode"] == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(40), "p": rng.choice([0.01, 0.1, 1.0])}
        for c in cons:
            c["limit"] = rng.choice([2, 6, 12])
            c["seed"] = rng.getrandbits(30)
        sc["steps"] = []
    else:
        sc["steps"] = [[rng.randrange(len(cons)), rng.choice(["take", "take", "take", "write", "clear", "node", "rewire"]), rng.getrandbits(16)] for _ in range(rng.randint(1, 40))]
        for s in sc["steps"]:
            if rng.random() < 0.02:
                s[1] = "stop"
            elif sc["mode"] == "interrupt" and rng.random() < 0.1:
                s[1] = "interrupt"
        sc["drain"] = rng.random() < 0.8
    return sc


def expected(m, c):
    """Snapshots of everything the iteration has to give, with multiplicity,
    and the model behind one of each."""
    def nonempty(s):
        s = sorted(s, key=repr)
        return [set(x) for k in range(1, len(s) + 1) for x in itertools.combinations(s, k)]

    sets = [m.nodes] + list(m.layers)
    args = [nonempty(s) if a in c["remove"] else [set(s)] for a, s in enumerate(sets)]
    out = collections.Counter()
    models = {}
    for pick in itertools.product(*args):
        base = m_subnet(m, pick[0], list(pick[1:]))
        if not c["edges"]:
            k = model_snapshot(base)
            out[k] += 1
            models[k] = base
            continue
        if isinstance(base, RefMux):
            links = [(l, k, w) for l, d in base.intra.items() for k, w in d.items()]
            ident = lambda x: (x[0], x[1] if m.directed else frozenset(x[1]))
        else:
            links = [(None, k, w) for k, w in base.e.items()]
            ident = lambda x: x[1] if m.directed else frozenset(x[1])
        groups = collections.defaultdict(list)
        for x in links:
            groups[ident(x)].append(x)
        gs = sorted(groups.values(), key=repr)
        if len(gs) > 8:
            return None, None
        empty = m_subnet(m, pick[0], list(pick[1:]), links=False)
        for r in range(len(gs) + 1):
            for comb in itertools.combinations(gs, r):
                s = m_subnet(m, pick[0], list(pick[1:]), links=False) if r else empty
                for g in comb:
                    for l, k, w in g:
                        if l is None:
                            s.e[k] = w
                        else:
                            s.intra.setdefault(l, {})[k] = w
                k = model_snapshot(s)
                out[k] += 1
                models[k] = s
        if sum(out.values()) > CAP:
            return None, None
    return out, models


class Consumer(object):
    def __init__(self, ctx, P, c, net, m, name):
        self.ctx, self.c, self.name, self.P, self.net, self.m = ctx, c, name, P, net, m
        self.want, self.models = expected(m, c)
        self.left = None if self.want is None else collections.Counter(self.want)
        self.kept = []
        self.done = False
        self.n = 0
        rem = tuple(c["remove"]) if c["arg"] == "tuple" else list(c["remove"])
        self.rem = rem
        self.keep_rem = list(rem)
        if c["arg"] == "default" and not rem and c["edges"]:
            self.it = P.transforms.subnet_iter(net)
        else:
            self.it = P.transforms.subnet_iter(net, remove_elayers=rem, remove_edges=c["edges"])

    def take(self, at=None):
        """One item (interrupted at a line); False at the end."""
        ctx = self.ctx
        x = None
        try:
            if at is None:
                x = next(self.it)
            else:
                s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (at, "interrupt")})
                s.spawn(lambda: next(self.it))
                k, v = s.run()[0]
                if k == "exc":
                    raise v
                x = v
        except StopIteration:
            self.done = True
            missing = sum(self.left.values())
            ctx.check(not missing, "missing", lambda: "%s: ended after %d items, %d missing, e.g. %r" % (self.name, self.n, missing, next(k for k, v in self.left.items() if v)))
            ctx.hit("iteration_finished")
            return False
        except SimInterrupt:
            self.done = True
            ctx.fault("interrupt")
            return False
        self.n += 1
        s = net_snapshot(x)
        ctx.check(s in self.want, "not-a-subnetwork", lambda: "%s: item %d is %r" % (self.name, self.n, s))
        ctx.check(self.left[s] > 0, "repeated", lambda: "%s: item %d was given before: %r" % (self.name, self.n, s))
        self.left[s] -= 1
        if self.n % 7 == 1 and "limit" not in self.c:
            c01.check_full(ctx, x, flat(self.models[s]))
        self.kept.append([x, s])
        return True

    def modify(self, how, n):
        """Change one of the networks received before."""
        if not self.kept:
            return
        k = self.kept[n % len(self.kept)]
        x = k[0]
        mux = type(x) is self.P.MultiplexNetwork
        if how == "write":
            nls = sorted(x.iter_node_layers(), key=repr) if x.aspects else sorted(((v,) for v in x), key=repr)
            pairs = [(tuple(a), tuple(b)) for a in nls for b in nls if a != b and (not mux or tuple(a)[1:] == tuple(b)[1:])]
            if pairs:
                a, b = pairs[n % len(pairs)]
                x[link(a, b)] = 55 + n % 7
        elif how == "clear":
            if mux:
                for l in list(x.iter_layers()):
                    for e in list(x.A[l].edges):
                        x.A[l][e[0], e[1]] = x.noEdge
            else:
                for e in list(x.edges):
                    x[tuple(e[:-1])] = x.noEdge
        elif how == "node":
            x.add_node("new")
            if x.aspects:
                x.add_layer(99, 1)
        elif how == "rewire" and mux:
            ls = sorted(x.iter_layers(), key=repr)
            if ls:
                x.A[ls[n % len(ls)]].add_node("extra")
        k[1] = net_snapshot(x)
        self.ctx.hit("yielded_network_modified")

    def check_kept(self):
        for x, s in self.kept:
            self.ctx.check(net_snapshot(x) == s, "yielded-changed", lambda: "%s: a network received before is now %r, was %r" % (self.name, net_snapshot(x), s))
        self.ctx.check(list(self.rem) == self.keep_rem, "argument-changed", "remove_elayers was changed")


def execute(sc, ctx):
    import pymnet as P
    N, M, S = [], [], []
    for sp in sc["nets"]:
        node, layer = nets.labelled(sp)
        if sc["nets"][0] is not sp and any(c[0] == "ordinal" for c in sp.get("couplings", ())):
            layer = lambda i, a=1: i
        net = nets.build(P, sp, node=node, layer=layer)
        N.append(net)
        M.append(model_of(sp, node, layer))
        S.append(freeze(net))
    cons = [Consumer(ctx, P, c, N[c["net"]], M[c["net"]], "consumer %d" % i) for i, c in enumerate(sc["consumers"])]
    if any(c.want is None for c in cons):
        ctx.emit("too many subnetworks")
        return
    if sc["mode"] == "threads":
        s = Sched(sc["plan"], max_yields=1500000)
        for c in cons:
            s.spawn(lambda c=c: thread(c))
        for k, v in s.run():
            if k == "exc":
                raise v
    else:
        for i, how, n in sc["steps"]:
            c = cons[i % len(cons)]
            ctx.steps += 1
            if how == "take":
                if not c.done:
                    c.take()
            elif how == "stop":
                c.it.close()
                c.done = True
                ctx.fault("stopped_early")
            elif how == "interrupt":
                if not c.done:
                    c.take(1 + n % 120)
            else:
                c.modify(how, n)
            ctx.emit(i, how, c.n, c.done)
            for net, snap in zip(N, S):
                ctx.check(net_snapshot(net) == snap, "source-changed", lambda: "after %s: %r, was %r" % (how, net_snapshot(net), snap))
    for c in cons:
        if sc.get("drain") and sc["mode"] != "threads":
            while not c.done and c.take():
                pass
    for c in cons:
        c.check_kept()
        ctx.emit(c.name, c.n, c.done)
    for i, (net, snap) in enumerate(zip(N, S)):
        ctx.check(net_snapshot(net) == snap, "source-changed", lambda: "%r, was %r" % (net_snapshot(net), snap))
        c01.check_full(ctx, net, flat(M[i]))
    ctx.nontrivial = any(c.n > 1 for c in cons)


def thread(c):
    from sim.core import RealRandom
    r = RealRandom(c.c["seed"])
    for _ in range(c.c["limit"]):
        if not c.take():
            return
        if r.random() < 0.3:
            c.modify(r.choice(["write", "clear", "node", "rewire"]), r.getrandbits(16))


def shrink(sc):
    if sc["mode"] == "threads":
        import checks.c15 as me
        for s in shrink_plan(me, sc):
            yield s
    for i in range(len(sc["consumers"])):
        if len(sc["consumers"]) > 1:
            yield dict(sc, consumers=sc["consumers"][:i] + sc["consumers"][i + 1:], steps=[[a - (a > i), b, n] for a, b, n in sc["steps"] if a != i])
        if sc["consumers"][i]["edges"]:
            yield dict(sc, consumers=sc["consumers"][:i] + [dict(sc["consumers"][i], edges=False)] + sc["consumers"][i + 1:])
    for i, sp in enumerate(sc["nets"]):
        for t in nets.shrink(sp):
            yield dict(sc, nets=sc["nets"][:i] + [t] + sc["nets"][i + 1:])
        if sp["noedge"] != 0:
            yield dict(sc, nets=sc["nets"][:i] + [dict(sp, noedge=0)] + sc["nets"][i + 1:])
