"""Histories over a multiplex network, shared by C02, C03 and C14."""
from sim import labels
from checks.common import RefMux, big, idx, lay

NOEDGES = [0, 0, 0, 0, -1, None, 7]
FORMS = ["full", "short", "node", "A", "Anode", "handle", "heldA"]


def gen_config(rng, aspects=None):
    aspects = aspects or rng.choice([1, 1, 1, 1, 1, 1, 1, 2, 2, 3])
    directed = rng.random() < 0.35
    nn = rng.randint(2, 5 if aspects == 1 else 3 if aspects == 2 else 2)
    nlay = rng.randint(1, 4 if aspects == 1 else 2)
    if big(rng):
        nn, nlay = rng.randint(6, 14 if aspects == 1 else 6), rng.randint(2, 8 if aspects == 1 else 3 if aspects == 2 else 2)
    cpl = []
    for a in range(aspects):
        t = rng.choice(["none", "None", "str", "categorical", "categorical", "ordinal", "net", "net"])
        if t == "net":
            dirc = directed and rng.random() < 0.5
            es = [[i, j, rng.choice([0.5, 2.0, 3])] for i in range(nlay + 1) for j in range(nlay + 1)
                  if i != j and (dirc or i < j) and rng.random() < 0.5]
            cpl.append(["net", dirc, es, rng.choice([0, 0, -1])])
        else:
            cpl.append([t, rng.choice([1.0, 0.5, 2.0])])
    return {"aspects": aspects, "directed": directed, "aligned": rng.random() < 0.45, "couplings": cpl,
            "noedge": rng.randrange(len(NOEDGES)), "labels": rng.choice(labels.MODES), "salt": rng.getrandbits(30),
            "nn": nn, "nlay": nlay}


def gen_ops(rng, sc, nops, clients=3, kinds=None):
    aspects, nn, nlay = sc["aspects"], sc["nn"], sc["nlay"]
    ops = []
    recent = []
    lt = lambda: [rng.randrange(nlay) for _ in range(aspects)]
    dele = rng.choice([0.15, 0.3, 0.5])
    pre = rng.random() < 0.6
    if pre:
        for a in range(aspects):
            for v in range(nlay):
                ops.append(["layer", 0, v, a + 1])
    for _ in range(nops):
        c = rng.randrange(clients)
        r = rng.random()
        if r < 0.5:
            if recent and rng.random() < 0.4:
                i, j, l = rng.choice(recent)
                if rng.random() < 0.4:
                    i, j = j, i
                if rng.random() < 0.3:
                    l = lt()
            else:
                i, j = rng.sample(range(nn), 2)
                l = lt()
            form = rng.choice(FORMS)
            hs = [o for o in ops if o[0] == "hold"]
            if form == "handle" and hs:
                h = rng.choice(hs)
                c, i, l = h[1], h[2][0], h[2][1:]
                j = rng.choice([x for x in range(nn) if x != i])
            hs = [o for o in ops if o[0] == "holdA"]
            if form == "heldA" and hs:
                h = rng.choice(hs)
                c, l = h[1], h[2]
            recent.append((i, j, l))
            if rng.random() < dele:
                ops.append(["del", c, form, i, j, l])
            else:
                ops.append(["set", c, form, i, j, l, rng.choice(["int", "int", "float", "neg", "same"])])
        elif r < 0.56:
            ops.append(["node", c, rng.randrange(nn)])
        elif r < 0.66:
            ops.append(["nodelayer", c, rng.randrange(nn), lt(), rng.choice(["net", "netlist", "A"])])
        elif r < 0.72:
            ops.append(["layer", c, rng.randrange(nlay), rng.randint(1, aspects)])
        elif r < 0.78:
            k = rng.randint(0, nn)
            nodes = rng.sample(range(nn), k)
            es = [[a, b] for a in nodes for b in nodes if (a != b if sc["directed"] else a < b) and rng.random() < 0.5]
            ops.append(["replace", c, lt(), nodes, es, rng.random() < 0.2])
        elif r < 0.84:
            ops.append(["refuse", c, rng.choice(["self", "coupling", "diagonal"]), rng.randrange(1000)])
        elif r < 0.9:
            ops.append(["hold", c, [rng.randrange(nn)] + lt()])
        elif r < 0.93:
            ops.append(["holdA", c, lt()])
        elif r < 0.97:
            ops.append(["iter", c, [rng.randrange(nn)] + lt()])
            for _ in range(rng.randint(0, 6)):
                ops.append(rng.choice([["step", c], ["step", c], ["refuse", c, "self", 0], ["hold", c, [rng.randrange(nn)] + lt()]]))
        else:
            ops.append(["step", c])
    return ops


class MuxSim(object):
    """Applies operations to the real network and to the model."""

    def __init__(self, sc, ctx):
        import pymnet
        self.pymnet = pymnet
        self.sc, self.ctx = sc, ctx
        ordinal = any(c[0] == "ordinal" for c in sc["couplings"])
        self.node, self.layer = labels.make(sc["labels"], sc["salt"])
        if ordinal:
            self.layer = labels.ordinal_layer(sc["salt"])
        self.noedge = NOEDGES[sc["noedge"]]
        self.net = self.build_empty()
        model = []
        for a, c in enumerate(sc["couplings"]):
            if c[0] == "net":
                d = {}
                for i, j, w in c[2]:
                    d[(self.layer(i, a + 1), self.layer(j, a + 1))] = w
                    if not c[1]:
                        d[(self.layer(j, a + 1), self.layer(i, a + 1))] = w
                model.append(("net", d))
            elif c[0] in ("none", "None"):
                model.append(("none", 0))
            elif c[0] == "str":
                model.append(("categorical", 1.0))
            else:
                model.append((c[0], c[1]))
        self.m = RefMux(model, sc["directed"], sc["aligned"], self.noedge)
        self.handles = {}
        self.held = {}
        self.iters = {}
        self.wn = 0

    def build_empty(self):
        sc, pymnet = self.sc, self.pymnet
        cpl = []
        for a, c in enumerate(sc["couplings"]):
            if c[0] == "net":
                cn = pymnet.MultilayerNetwork(aspects=0, directed=c[1], noEdge=c[3])
                for v in range(sc["nlay"]):
                    cn.add_node(self.layer(v, a + 1))
                for i, j, w in c[2]:
                    cn[self.layer(i, a + 1), self.layer(j, a + 1)] = w
                cpl.append(cn)
            elif c[0] == "None":
                cpl.append(None)
            elif c[0] == "none":
                cpl.append("none")
            elif c[0] == "str":
                cpl.append("categorical")
            else:
                cpl.append((c[0], c[1]))
        return self.ctx.call("new", pymnet.MultiplexNetwork, couplings=cpl, directed=sc["directed"],
                             noEdge=self.noedge, fullyInterconnected=sc["aligned"])

    def lt(self, l):
        return tuple(self.layer(v, a + 1) for a, v in enumerate(l))

    def A(self, l, net=None):
        return (net or self.net).A[l[0] if len(l) == 1 else l]

    def has_layer(self, l):
        return all(v in self.m.layers[a] for a, v in enumerate(l))

    def weight(self, kind):
        self.wn += 1
        w = {"int": self.wn + 10, "float": self.wn + 0.5, "neg": -self.wn - 10, "same": 1}[kind]
        return self.wn + 10 if w == self.noedge else w

    def write(self, c, form, i, j, l, w):
        net = self.net
        if form in ("A", "Anode", "heldA") and not self.has_layer(l):
            form = "full"
        if form == "short":
            net[(i, j) + l] = w
        elif form == "node":
            net[(i,) + l][(j,) + l] = w
        elif form == "A":
            self.A(l)[i, j] = w
        elif form == "Anode":
            self.A(l)[i][j] = w
        elif form == "handle" and (c, (i,) + l) in self.handles:
            self.ctx.hit("write_through_held_handle")
            self.handles[(c, (i,) + l)][(j,) + l] = w
        elif form == "heldA" and (c, l) in self.held:
            self.ctx.hit("write_through_held_layer")
            self.held[(c, l)][i, j] = w
        else:
            net[tuple(x for p in zip((i,) + l, (j,) + l) for x in p)] = w

    def step(self, op):
        """Returns the list of touched node-layers (or None: operation skipped)."""
        ctx, m, net = self.ctx, self.m, self.net
        k, c = op[0], op[1]
        if k in ("set", "del"):
            i, j, l = self.node(op[3]), self.node(op[4]), self.lt(op[5])
            if i == j:
                return None
            if k == "del":
                if not self.has_layer(l) or not m.on(i, l) or not m.on(j, l):
                    return None
                w = self.noedge
            else:
                w = self.weight(op[6])
            ctx.call(k, self.write, c, op[2], i, j, l, w)
            m.set(i, j, l, w)
            self.iters.clear()
            return [(i,) + l, (j,) + l]
        if k == "node":
            ctx.call("add_node", net.add_node, self.node(op[2]))
            m.add_node(self.node(op[2]))
            self.iters.clear()
            return []
        if k == "nodelayer":
            n, l = self.node(op[2]), self.lt(op[3])
            if op[4] == "A":
                if not self.has_layer(l):
                    return None
                ctx.call("A.add_node", self.A(l).add_node, n)
            else:
                ly = lay((n,) + l)
                if op[4] == "netlist" and isinstance(ly, tuple):
                    ly = list(ly)
                ctx.call("add_node", net.add_node, n, layer=ly)
            m.add_node(n, l)
            self.iters.clear()
            return [(n,) + l] if self.has_layer(l) else []
        if k == "layer":
            v = self.layer(op[2], op[3])
            ctx.call("add_layer", net.add_layer, v, op[3])
            m.add_layer(v, op[3])
            self.iters.clear()
            return []
        if k == "replace":
            l = self.lt(op[2])
            if not self.has_layer(l):
                return None
            if op[5]:
                # a layer assigned to itself
                new = self.A(l)
                nodes = [n for n in m.nodes if m.on(n, l)]
                edges = dict(m.intra.get(l, {}))
                ctx.hit("layer_replaced_by_itself")
            else:
                new = self.pymnet.MultilayerNetwork(aspects=0, directed=self.sc["directed"], noEdge=self.noedge)
                edges = {}
                nodes = [self.node(n) for n in op[3]]
                for n in nodes:
                    new.add_node(n)
                for a, b in op[4]:
                    w = self.weight("int")
                    new[self.node(a), self.node(b)] = w
                    edges[(self.node(a), self.node(b))] = w
                    if not self.sc["directed"]:
                        edges[(self.node(b), self.node(a))] = w
            def assign():
                net.A[l[0] if len(l) == 1 else l] = new
            ctx.call("A=", assign)
            m.replace(l, nodes, edges)
            self.held = dict((x, y) for x, y in self.held.items() if x[1] != l)
            self.iters.clear()
            ctx.hit("layer_replaced")
            return [(n,) + l for n in nodes]
        if k == "refuse":
            nls = sorted(m.node_layers(), key=repr)
            if not nls:
                return None
            a = nls[op[3] % len(nls)]
            cand = {"self": [b for b in nls if b == a],
                    "coupling": [b for b in nls if b[0] == a[0] and b != a],
                    "diagonal": [b for b in nls if b[0] != a[0] and b[1:] != a[1:]]}[op[2]]
            if not cand:
                return None
            b = cand[op[3] % len(cand)]
            try:
                net[tuple(x for p in zip(a, b) for x in p)] = 99
                refused = False
            except Exception:
                refused = True
                ctx.fault("refused_write:" + op[2])
            ctx.check(refused, "not-refused", lambda: "writing the %s link %r-%r was accepted" % (op[2], a, b))
            return [a, b]
        if k == "hold":
            a = (self.node(op[2][0]),) + self.lt(op[2][1:])
            if not self.has_layer(a[1:]):
                return None
            self.handles[(c, a)] = ctx.call("getitem", lambda: net[a])
            return []
        if k == "holdA":
            l = self.lt(op[2])
            if not self.has_layer(l):
                return None
            self.held[(c, l)] = self.A(l)
            return []
        if k == "iter":
            a = (self.node(op[2][0]),) + self.lt(op[2][1:])
            if not self.has_layer(a[1:]) or a[0] not in m.nodes:
                return None
            self.iters[c] = (a, iter(net[a]), [])
            return []
        if k == "step" and c in self.iters:
            a, it, seen = self.iters[c]
            x = ctx.call("next", lambda: next(it, None))
            if x is None:
                f = m.flat()
                want = set(f.out(a)) | set(f.inn(a))
                ctx.check(sorted(map(repr, seen)) == sorted(map(repr, want)), "open-iterator",
                          lambda: "iterator over %r gave %r, expected %r" % (a, seen, want))
                del self.iters[c]
                ctx.hit("iterator_finished_interleaved")
            else:
                seen.append(tuple(x))
            return []
        return None


def shrink_config(sc):
    for k, v in (("labels", "int"), ("full_every", 1), ("aligned", True), ("aligned", False), ("directed", False), ("noedge", 0)):
        if k in sc and sc[k] != v:
            yield dict(sc, **{k: v})
    for a, c in enumerate(sc["couplings"]):
        for r in (["none", 1.0], ["categorical", 1.0]):
            if c != r and not (c[0] == "none"):
                yield dict(sc, couplings=sc["couplings"][:a] + [r] + sc["couplings"][a + 1:])
        if c[0] == "net" and len(c[2]) > 1:
            for q in range(len(c[2])):
                yield dict(sc, couplings=sc["couplings"][:a] + [[c[0], c[1], c[2][:q] + c[2][q + 1:], c[3]]] + sc["couplings"][a + 1:])
    for i, op in enumerate(sc["ops"]):
        if op[0] in ("set", "del") and op[2] != "full":
            yield dict(sc, ops=sc["ops"][:i] + [op[:2] + ["full"] + op[3:]] + sc["ops"][i + 1:])
        if op[0] == "replace" and op[4]:
            yield dict(sc, ops=sc["ops"][:i] + [op[:4] + [op[4][:-1]] + op[5:]] + sc["ops"][i + 1:])
