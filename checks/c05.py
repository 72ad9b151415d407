"""C05: derived networks hold what the operation defines, and are independent
of their source under any later interleaving of writers.

A pool of networks, each with its model.  Operations derive a new network from
any of them, or write to any of them; after every operation all networks of
the pool are compared with their models."""
import itertools
import math

from sim import rand
from sim.core import canon, exact, net_snapshot, rng_for
from checks import c01, nets
from checks.common import RefMux, RefNet, link

SHRINK = ("ops",)
KINDS = ["mono", "ml1", "ml1", "ml2", "mux1", "mux1", "mux1", "mux2"] * 2 + ["ml3", "mux3"]
DERIVE = ["subnet", "subnet", "subnet_none", "subnet_nolinks", "relabel", "relabel", "normalize", "threshold", "threshold",
          "aggregate", "aggregate", "overlay", "underlying", "convert", "assign", "assign", "supra_noop"]


def generate(rng, tier):
    sp = nets.gen(rng, rng.choice(KINDS), noedge=[0, 0, 0, -1])
    if "couplings" in sp and rng.random() < 0.3:
        sp["couplings"] = [["none", 1.0] for c in sp["couplings"]]
    sc = {"net": sp, "seed": rng.getrandbits(40)}
    ops = []
    n = rng.randint(3, 16 if tier == "quick" else 40)
    for k in range(n):
        r = rng.random()
        if k == 0 or r < 0.25:
            ops.append(["derive", rng.choice(DERIVE), rng.getrandbits(10), rng.getrandbits(20)])
        elif r < 0.7:
            ops.append(["write", rng.getrandbits(10), rng.getrandbits(30), rng.choice([0.5, 1, 2, 3, 7.5, 0])])
        elif r < 0.85:
            ops.append(["del", rng.getrandbits(10), rng.getrandbits(20)])
        elif r < 0.92:
            ops.append(["node", rng.getrandbits(10), rng.getrandbits(20)])
        else:
            ops.append(["nodelayer", rng.getrandbits(10), rng.getrandbits(20)])
    sc["ops"] = ops
    return sc


# ------------------------------------------------------------------ models

def model_of(sp, node, layer):
    if sp["kind"].startswith("mux"):
        cpl = []
        for a, c in enumerate(sp["couplings"]):
            if c[0] == "net":
                d = {}
                for i in range(sp["nlay"][a] - 1):
                    x, y = layer(i, a + 1), layer(i + 1, a + 1)
                    d[(x, y)] = d[(y, x)] = c[1]
                cpl.append(("net", d))
            else:
                cpl.append((c[0], c[1]))
        m = RefMux(cpl, sp["directed"], sp["aligned"], sp.get("noedge", 0))
    else:
        m = RefNet(sp["aspects"], sp["directed"], sp["aligned"], sp.get("noedge", 0))
    for n in range(sp["nn"]):
        m.add_node(node(n))
    for a, k in enumerate(sp["nlay"]):
        for v in range(k):
            m.add_layer(layer(v, a + 1), a + 1)
    if not sp["aligned"]:
        for x in sp["nls"]:
            t = nets.tup(x, node, layer)
            m.add_node(t[0], t[1:])
    for a, b, w in sp["edges"]:
        mset(m, nets.tup(a, node, layer), nets.tup(b, node, layer), w)
    return m


def mset(m, a, b, w):
    if isinstance(m, RefMux):
        m.set(a[0], b[0], a[1:], w)
    else:
        m.set(a, b, w)


def flat(m):
    return m.flat() if isinstance(m, RefMux) else m


def model_snapshot(m):
    f = flat(m)
    nodes = tuple(sorted((canon(n) for n in m.nodes), key=repr))
    layers = [sorted((canon(l) for l in s), key=repr) for s in m.layers]
    nls = tuple(sorted((canon(nl) for nl in f.node_layers()), key=repr))
    edges = set()
    for (a, b), w in f.e.items():
        ends = [tuple(exact(x) for x in a), tuple(exact(x) for x in b)]
        if not m.directed:
            ends.sort(key=repr)
        edges.add((ends[0], ends[1], exact(w)))
    return ("net", "MultiplexNetwork" if isinstance(m, RefMux) else "MultilayerNetwork", m.aspects, m.directed, m.aligned,
            canon(m.no_edge), nodes, repr(layers), nls, tuple(sorted(edges, key=repr)))


def intra_models(m):
    for l in m.layer_tuples():
        r = RefNet(0, m.directed, True, m.no_edge)
        r.nodes = set(n for n in m.nodes if m.on(n, l))
        for (i, j), w in m.intra.get(l, {}).items():
            r.e[((i,), (j,))] = w
        yield l, r


def blank(m, **k):
    if isinstance(m, RefMux) and not k.get("general"):
        return RefMux(m.couplings, m.directed, m.aligned, m.no_edge)
    return RefNet(m.aspects, m.directed, k.get("aligned", m.aligned), m.no_edge)


def m_subnet(m, nodes, layers, links=True, general=False, aligned=None):
    """The network induced by nodes and layers (sets)."""
    new = blank(m, general=general, aligned=m.aligned if aligned is None else aligned)
    f = flat(m)
    if m.aligned:
        new.nodes = nodes & m.nodes
    for a in range(m.aspects):
        new.layers[a] = layers[a] & m.layers[a]
    inside = lambda nl: nl[0] in nodes and all(nl[a + 1] in layers[a] for a in range(m.aspects))
    for nl in f.node_layers():
        if inside(nl) and m.aspects and not new.aligned:
            new.add_node(nl[0], nl[1:])
    if links:
        if isinstance(new, RefMux):
            for l, d in m.intra.items():
                if all(l[a] in layers[a] for a in range(m.aspects)):
                    new.intra[l] = dict((k, w) for k, w in d.items() if k[0] in nodes and k[1] in nodes)
        else:
            new.e = dict((k, w) for k, w in f.e.items() if inside(k[0]) and inside(k[1]))
    return new


def m_relabel(m, nmap, lmaps):
    new = blank(m)
    fn = lambda n: nmap.get(n, n)
    fl = lambda a, l: lmaps[a].get(l, l)
    fnl = lambda nl: (fn(nl[0]),) + tuple(fl(a, l) for a, l in enumerate(nl[1:]))
    new.nodes = set(map(fn, m.nodes))
    for a in range(m.aspects):
        new.layers[a] = set(fl(a, l) for l in m.layers[a])
    if isinstance(m, RefMux):
        new.lnodes = dict((fnl((None,) + l)[1:], set(map(fn, s))) for l, s in m.lnodes.items())
        new.intra = dict((fnl((None,) + l)[1:], dict(((fn(i), fn(j)), w) for (i, j), w in d.items())) for l, d in m.intra.items())
    else:
        new.nls = set(map(fnl, m.nls))
        new.e = dict(((fnl(x), fnl(y)), w) for (x, y), w in m.e.items())
    return new


def m_threshold(m, keep):
    if isinstance(m, RefMux) and all(c[0] == "none" for c in m.couplings):
        new = m_relabel(m, {}, [{} for _ in m.layers])
        new.intra = dict((l, dict((k, w) for k, w in d.items() if keep(w))) for l, d in new.intra.items())
        return new
    f = flat(m)
    new = f.copy()
    new.e = dict((k, w) for k, w in f.e.items() if keep(w))
    return new


def m_aggregate(m, aspects, self_edges):
    f = flat(m)
    left = [a for a in range(1, m.aspects + 1) if a not in aspects]
    new = RefNet(len(left), m.directed, m.aligned, m.no_edge)
    pr = lambda nl: (nl[0],) + tuple(nl[a] for a in left)
    new.nodes = set(f.nodes)
    for i, a in enumerate(left):
        new.layers[i] = set(f.layers[a - 1])
    if not new.aligned:
        new.nls = set(pr(nl) for nl in f.node_layers())
    if not m.directed:
        es = dict((frozenset((a, b)), (a, b, w)) for (a, b), w in f.e.items()).values()
    else:
        es = [(a, b, w) for (a, b), w in f.e.items()]
    for a, b, w in es:
        x, y = pr(a), pr(b)
        if x == y and not self_edges:
            continue
        old = new.get(x, y)
        new.set(x, y, w if old == new.no_edge else old + w)
    return new


def m_overlay(m):
    new = RefNet(0, m.directed, True, 0)
    new.nodes = set(m.nodes)
    f = flat(m)
    done = set()
    for (a, b), w in f.e.items():
        if a[1:] == b[1:] and a[0] != b[0] and (m.directed or (b, a) not in done):
            done.add((a, b))
            new.set((a[0],), (b[0],), new.get((a[0],), (b[0],)) + w)
    return new


def m_underlying(m):
    f = flat(m)
    new = RefNet(0, m.directed, True, m.no_edge)
    new.nodes = set(str(nl) for nl in f.node_layers())
    new.e = dict((((str(a),), (str(b),)), w) for (a, b), w in f.e.items())
    return new


# --------------------------------------------------------------- derivation

def derive(P, ctx, kind, net, m, code, pool, sc):
    """Returns (new net, new model), or None if it does not apply."""
    from pymnet import transforms as tr
    nodes = sorted(m.nodes, key=repr)
    layers = [sorted(l, key=repr) for l in m.layers]
    mux = isinstance(m, RefMux)
    pick = lambda seq, s: [x for i, x in enumerate(seq) if (code >> (s + i)) & 1]
    if kind in ("subnet", "subnet_none", "subnet_nolinks"):
        ns = pick(nodes, 0)
        ls = [pick(l, 5 + 3 * a) for a, l in enumerate(layers)]
        args = [list(ns)] + [list(l) for l in ls]
        if kind == "subnet_none":
            if (code >> 15) & 1:
                args[0], ns = None, nodes
            for a in range(m.aspects):
                if (code >> (16 + a)) & 1 or args[0] is not None and a == 0:
                    args[a + 1], ls[a] = None, layers[a]
        elif (code >> 17) & 1:
            args = [set(ns)] + [tuple(l) for l in ls]
        elif (code >> 18) & 1 and kind == "subnet":
            args[0] = args[0] + ["not a node"]
        frozen = repr(args)
        kw = {"nolinks": True} if kind == "subnet_nolinks" else {}
        new = ctx.call(kind, tr.subnet, net, *args, **kw)
        ctx.check(repr(args) == frozen, "arguments:" + kind, "subnet changed its arguments")
        return new, m_subnet(m, set(ns), [set(l) for l in ls], links=not kw)
    if kind == "convert":
        if not mux and m.aspects == 0:
            return None
        al = m.aligned and bool(code & 1)
        tgt = P.MultilayerNetwork(aspects=m.aspects, directed=m.directed, noEdge=m.no_edge, fullyInterconnected=al)
        new = ctx.call(kind, tr.subnet, net, None, *[None] * m.aspects, newNet=tgt)
        ctx.check(new is tgt, "newNet", "the given network was not filled")
        return new, m_subnet(m, set(nodes), [set(l) for l in layers], general=True, aligned=al)
    if kind in ("relabel", "normalize"):
        if mux and any(c[0] == "net" for c in m.couplings) and (kind == "normalize" or code & 1):
            return None
        if kind == "normalize":
            if any(isinstance(x, str) for x in nodes) and any(not isinstance(x, str) for x in nodes):
                return None
            if any(len(set(isinstance(x, str) for x in l)) > 1 for l in layers):
                return None
            st = code % 3
            nmap = dict((n, i + st) for i, n in enumerate(sorted(nodes)))
            lst = (code >> 8) % 3
            lmaps = [dict((l, i + lst) for i, l in enumerate(sorted(ls))) for ls in layers]
            # the maps in either direction, or not at all
            ninv, linv = [True, True, False, False, None][(code >> 4) % 5], [True, False, False, True, None][(code >> 10) % 5]
            r = ctx.call(kind, tr.normalize, net, nodesToIndices=ninv, layersToIndices=linv, nodeStart=st, layerStart=lst)
            new, *maps = r if isinstance(r, tuple) else (r,)
            ctx.check(len(maps) == (ninv is not None) + (linv is not None), "normalize-maps", lambda: "%d maps" % len(maps))
            gn, gl = maps[0] if ninv is not None else None, maps[-1] if linv is not None else None
            wl = [dict(d) for d in lmaps]
            wn = dict(nmap)
            if ninv is False:
                wn = dict((v, k) for k, v in wn.items())
            if linv is False:
                wl = [dict((v, k) for k, v in d.items()) for d in wl]
            ctx.check(ninv is None or gn == wn, "normalize-nodes", lambda: "%r, expected %r" % (gn, wn))
            ctx.check(linv is None or gl == (wl[0] if m.aspects == 1 else wl), "normalize-layers", lambda: "%r, expected %r" % (gl, wl))
            return new, m_relabel(m, nmap, lmaps)
        ns = pick(nodes, 0)
        # fresh names, or a permutation of the old ones
        if (code >> 16) & 1 and len(ns) > 1:
            nmap = dict(zip(ns, ns[1:] + ns[:1]))
        else:
            nmap = dict((n, "n%d-%d" % (i, code)) for i, n in enumerate(ns))
            if set(nmap.values()) & set(nodes):
                nmap = {}
        lmaps = [{} for _ in layers]
        if code & 1:
            ordinal = mux and any(c[0] == "ordinal" for c in m.couplings)
            for a, ls in enumerate(layers):
                sel = pick(ls, 5 + 3 * a)
                if (code >> 17) & 1 and len(sel) > 1:
                    lmaps[a] = dict(zip(sel, sel[1:] + sel[:1]))
                else:
                    base = 100 + int(max([l for l in ls if not isinstance(l, str)] or [0]))
                    lmaps[a] = dict((l, (base + i) if ordinal else "l%d-%d" % (i, code)) for i, l in enumerate(sel))
                    if set(lmaps[a].values()) & set(ls):    # names in use: two layers would become one
                        lmaps[a] = {}
        arg_l = lmaps[0] if m.aspects == 1 and (code >> 18) & 1 else lmaps
        if (code >> 19) & 1 and m.aspects >= 2:     # names for the first aspects only
            while len(arg_l) > 1 and not arg_l[-1]:
                arg_l = arg_l[:-1]
        if m.aspects == 0:
            arg_l = None
        frozen = repr((nmap, arg_l))
        new = ctx.call(kind, tr.relabel, net, nodeNames=nmap, layerNames=arg_l)
        ctx.check(repr((nmap, arg_l)) == frozen, "arguments:" + kind, "relabel changed its arguments")
        return new, m_relabel(m, nmap, lmaps)
    if kind == "threshold":
        method = [">=", "<=", ">", "<"][code % 4]
        t = [0.5, 1, 2, 3, 2.5][(code >> 3) % 5]
        ws = sorted(set(w for w in flat(m).e.values() if isinstance(w, (int, float)))) if (code >> 6) & 1 else []
        if ws:      # a weight, or next to one
            t = ws[(code >> 7) % len(ws)]
            t = [t, math.nextafter(t, math.inf), math.nextafter(t, -math.inf)][(code >> 11) % 3] if -1e300 < t < 1e300 else t
        keep = {">=": lambda w: w >= t, "<=": lambda w: w <= t, ">": lambda w: w > t, "<": lambda w: w < t}[method]
        return ctx.call(kind, tr.threshold, net, t, method=method), m_threshold(m, keep)
    if kind == "aggregate":
        if m.aspects == 0:
            return None
        if m.aspects == 1:
            asp = [1, (1,)][code & 1]
        else:
            asp = ([1, 2, (1, 2), (2, 1), (2,)] if m.aspects == 2 else [1, 2, 3, (1, 2), (2, 3), (3, 1), (1, 2, 3), (3, 2)])[code % (5 if m.aspects == 2 else 8)]
        t = asp if isinstance(asp, tuple) else (asp,)
        se = bool((code >> 4) & 1)
        return ctx.call(kind, tr.aggregate, net, asp, selfEdges=se), m_aggregate(m, t, se)
    if kind == "overlay":
        if m.aspects != 1 or (any(isinstance(x, str) for x in nodes) and any(not isinstance(x, str) for x in nodes)):
            return None
        if any(a == b for a, b in flat(m).e):       # self-links (of an aggregate): no rule says what becomes of them
            return None
        return ctx.call(kind, tr.overlay_network, net), m_overlay(m)
    if kind == "underlying":
        if len(flat(m).node_layers()) > 30:
            return None
        return ctx.call(kind, tr.get_underlying_graph, net), m_underlying(m)
    if kind == "assign":
        # a monoplex network of the pool, or a layer of a multiplex network of the pool,
        # becomes a layer of a new multiplex network
        if isinstance(m, RefMux) and m.aspects:
            ls = sorted(intra_models(m), key=repr)
            if not ls:
                return None
            l, r = ls[(code >> 6) % len(ls)]
            src = net.A[l[0] if m.aspects == 1 else l]
        elif m.aspects == 0:
            r, src = m, net
        else:
            return None
        if any(a == b for a, b in r.e):
            return None
        al = bool(code & 1)
        new = P.MultiplexNetwork(couplings=["categorical"], directed=m.directed, noEdge=m.no_edge, fullyInterconnected=al)
        nm = RefMux([("categorical", 1.0)], m.directed, al, m.no_edge)
        for l in ("L1", "L2"):
            new.add_layer(l)
            nm.add_layer(l)

        def assign():
            new.A["L1"] = src
            new.A["L2"] = new.A["L1"] if (code >> 2) & 1 else src      # also from a layer of the same network,
            if (code >> 3) & 3 == 3:
                new.A["L1"] = new.A["L1"]                              # and a layer from itself
        ctx.call(kind, assign)
        for l in ("L1", "L2"):
            nm.replace((l,), r.nodes, dict(((a[0], b[0]), w) for (a, b), w in r.e.items()))
        return new, nm
    return None


def compare(ctx, net, m, what):
    if type(net).__name__ != ("MultiplexNetwork" if isinstance(m, RefMux) else "MultilayerNetwork"):
        ctx.fail("content:" + what, "the result is a %s" % type(net).__name__)
    got, want = ctx.call("snapshot", net_snapshot, net), model_snapshot(m)
    if got != want:
        from checks.c04 import diff
        ctx.fail("content:" + what, "expected vs found: " + diff(want, got))
    if isinstance(m, RefMux):
        for l, r in intra_models(m):
            g = ctx.call("snapshot", net_snapshot, net.A[l[0] if len(l) == 1 else l])
            w = model_snapshot(r)
            if g[3:] != w[3:]:
                from checks.c04 import diff
                ctx.fail("layer-content:" + what, "layer %r: expected vs found: %s" % (l, diff(w[3:], g[3:])))
        gc = [c[0] for c in net.couplings]
        wc = [c[0] for c in m.couplings]
        gc = ["net" if hasattr(c, "edges") else c for c in gc]
        ctx.check(gc == wc, "couplings:" + what, lambda: "%r, expected %r" % (gc, wc))


def execute(sc, ctx):
    import pymnet
    sp = sc["net"]
    rand.reset(sc["seed"])
    node, layer = nets.labelled(sp)
    net = nets.build(pymnet, sp, node=node, layer=layer)
    pool = [(net, model_of(sp, node, layer), "source")]
    compare(ctx, net, pool[0][1], "source")
    derived = 0
    for k, op in enumerate(sc["ops"]):
        ctx.steps += 1
        if op[0] == "derive":
            if len(pool) >= 5:
                continue
            i = op[2] % len(pool)
            src, m, how = pool[i]
            r = derive(pymnet, ctx, op[1], src, m, op[3], pool, sc)
            if r is None:
                continue
            new, nm = r
            ctx.hit("derived:" + op[1])
            ctx.check(new is not src, "same-object:" + op[1], "the result is the source itself")
            compare(ctx, new, nm, op[1])
            pool.append((new, nm, op[1]))
            derived += 1
        else:
            i = op[1] % len(pool)
            t, m, how = pool[i]
            if not write(ctx, t, m, op):
                continue
            if derived:
                ctx.hit("wrote_to:" + ("source" if i == 0 else "derived"))
        for t, m, how in pool:
            compare(ctx, t, m, how)
        ctx.emit(k, op[0], repr(op[1]), repr([hash_of(m) for t, m, how in pool]))
    for t, m, how in pool:
        f = flat(m)
        if len(f.universe()) <= 24:
            c01.check_full(ctx, t, f)
    ctx.nontrivial = derived > 0 and len(sp["edges"]) > 0


def hash_of(m):
    f = flat(m)
    return [len(f.nodes), len(f.e), sum(f.e.values())]


def write(ctx, net, m, op):
    code = op[2]
    mux = isinstance(m, RefMux)
    nodes = sorted(m.nodes, key=repr) + ["fresh-node"]
    layers = [sorted(l, key=repr) for l in m.layers]
    if any(not l for l in layers):
        return False
    pl = lambda s: tuple(l[(code >> (s + 3 * a)) % len(l)] for a, l in enumerate(layers))
    if op[0] == "write":
        a = (nodes[code % len(nodes)],) + pl(6)
        b = (nodes[(code >> 3) % len(nodes)],) + (a[1:] if mux or (code >> 20) & 1 else pl(12))
        if a == b or a[0] == b[0] and mux:
            return False
        if mux and (code >> 21) & 1:
            ctx.call("write", lambda: net.A[a[1] if m.aspects == 1 else a[1:]].__setitem__((a[0], b[0]), op[3]))
        else:
            ctx.call("write", net.__setitem__, link(a, b), op[3])
        mset(m, a, b, op[3])
    elif op[0] == "del":
        f = flat(m)
        es = sorted(f.e if not mux else [k for k in f.e if k[0][1:] == k[1][1:]], key=repr)
        if not es:
            return False
        a, b = es[code % len(es)]
        ctx.call("del", net.__setitem__, link(a, b), m.no_edge)
        mset(m, a, b, m.no_edge)
    elif op[0] == "node":
        n = "extra-%d" % (code % 3)
        ctx.call("add_node", net.add_node, n)
        m.add_node(n)
    else:
        if not m.aspects:
            return False
        n, l = nodes[code % len(nodes)], pl(6)
        ctx.call("add_node", net.add_node, n, layer=l[0] if m.aspects == 1 else l)
        m.add_node(n, l)
    return True


def shrink(sc):
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    for i, op in enumerate(sc["ops"]):
        if op[0] == "derive":
            for b in range(20):
                if (op[3] >> b) & 1:
                    yield dict(sc, ops=sc["ops"][:i] + [op[:3] + [op[3] & ~(1 << b)]] + sc["ops"][i + 1:])
