"""C01: what the network reports is what was last written, on every access
path, for every interleaving of clients.

Simulated: several clients interleaved by the scheduler, each holding
long-lived node handles and half-consumed iterators; refused operations as
faults; hash order of labels."""
import itertools

from sim import labels
from checks.common import COLON, RefNet, asnl, big, edge_multiset, idx, lay, link, mk_nl

SHRINK = ("ops",)
NOEDGES = [0, 0, 0, -1, None, 0.0, 7, "none"]


def generate(rng, tier):
    aspects = rng.choice([0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 3])
    nn = rng.randint(2, 5 if aspects < 2 else 3 if aspects < 3 else 2)
    nlay = rng.randint(1, 3 if aspects == 1 else 2)
    large = big(rng)
    if large:
        nn, nlay = rng.randint(7, 20 if aspects < 2 else 8) if aspects < 3 else 4, rng.randint(1, 6 if aspects == 1 else 3 if aspects < 3 else 2)
    sc = {"aspects": aspects, "directed": rng.random() < 0.5, "aligned": rng.random() < 0.5,
          "noedge": rng.randrange(len(NOEDGES)), "labels": rng.choice(labels.MODES), "salt": rng.getrandbits(30),
          "nn": nn, "nlay": nlay, "clients": rng.randint(1, 4), "full_every": 40 if large else rng.choice([1, 3, 8])}
    density = rng.choice([0.15, 0.4, 0.4, 0.6])     # share of deletions
    nops = rng.randint(4, 40 if tier == "quick" else 90) + 60 * large
    def nl():
        return [rng.randrange(nn)] + [rng.randrange(nlay) for _ in range(aspects)]
    ops = []
    recent = []
    for _ in range(nops):
        c = rng.randrange(sc["clients"])
        r = rng.random()
        if r < 0.55:
            if recent and rng.random() < 0.35:
                a, b = rng.choice(recent)
                if rng.random() < 0.4:
                    a, b = b, a
            else:
                a = nl()
                b = nl() if rng.random() > 0.15 else list(a)
                if rng.random() < 0.3:
                    b[1:] = a[1:]
            form = rng.choice(["full", "short", "node", "handle"])
            hs = [o for o in ops if o[0] == "hold"]
            if form == "handle" and hs:
                h = rng.choice(hs)
                c, a = h[1], list(h[2])
            recent.append((a, b))
            if rng.random() < density and recent:
                ops.append(["del", c, form, a, b])
            else:
                ops.append(["set", c, form, a, b, rng.choice(["int", "int", "float", "neg", "zero", "same"])])
        elif r < 0.63:
            ops.append(["node", c, nl(), rng.random() < 0.6])
        elif r < 0.68 and aspects:
            ops.append(["layer", c, rng.randrange(nlay), rng.randint(1, aspects)])
        elif r < 0.76:
            ops.append(["hold", c, nl()])
        elif r < 0.86:
            ops.append(["refuse", c, rng.choice(["arity_get", "arity_set", "unhashable_set", "unhashable_get", "colon_set"]), nl()])
        elif r < 0.93:
            ops.append(["iter", c, nl()])
            for _ in range(rng.randint(0, 6)):
                ops.append(rng.choice([["step", c], ["step", c], ["hold", c, nl()], ["refuse", c, "arity_set", nl()]]))
        else:
            ops.append(["step", c])
    sc["ops"] = ops
    return sc


def neighbours(it, aspects):
    return [asnl(x, aspects) for x in it]


def check_nl(ctx, net, m, a, h=None):
    """Everything one node-layer reports."""
    asp = m.aspects
    v = net[idx(a)] if h is None else h
    out, inn = m.out(a), m.inn(a)
    both = set(out) | set(inn)
    where = "%r" % (a,)
    got = ctx.call("iter_out", lambda: neighbours(v.iter_out(), asp))
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, out)), "neighbours-out", lambda: "%s: %r, expected %r" % (where, got, sorted(out)))
    got = ctx.call("iter_in", lambda: neighbours(v.iter_in(), asp))
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, inn)), "neighbours-in", lambda: "%s: %r, expected %r" % (where, got, sorted(inn)))
    for nm, f in (("iter", lambda: neighbours(v, asp)), ("iter_total", lambda: neighbours(v.iter_total(), asp))):
        got = ctx.call(nm, f)
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, both)), "neighbours-total", lambda: "%s %s: %r, expected %r" % (where, nm, got, sorted(both)))
    sout, sinn = sum(out.values()), sum(inn.values())
    stot = sout + sinn if m.directed else sout
    for nm, f, want in (("deg", v.deg, len(both)), ("deg_total", v.deg_total, len(both)), ("len", lambda: len(v), len(both)),
                        ("deg_out", v.deg_out, len(out)), ("deg_in", v.deg_in, len(inn)),
                        ("str", v.str, stot), ("str_total", v.str_total, stot), ("str_out", v.str_out, sout), ("str_in", v.str_in, sinn)):
        if nm in ("str", "str_total") and getattr(m, "fuzzy_total", False):
            continue
        got = ctx.call(nm, f)
        ctx.check(got == want, nm, lambda: "%s: %s is %r, expected %r" % (where, nm, got, want))


def check_links(ctx, net, m, a, b):
    asp = m.aspects
    want = m.get(a, b)
    got = ctx.call("get_full", lambda: net[link(a, b)])
    ctx.check(got == want and type(got) == type(want), "link-full", lambda: "net%r is %r, expected %r" % (link(a, b), got, want))
    got = ctx.call("get_node", lambda: net[idx(a)][idx(b)])
    ctx.check(got == want, "link-node", lambda: "net[%r][%r] is %r, expected %r" % (a, b, got, want))
    if asp and a[1:] == b[1:]:
        k = (a[0], b[0]) + a[1:]
        got = ctx.call("get_short", lambda: net[k])
        ctx.check(got == want, "link-short", lambda: "net%r is %r, expected %r" % (k, got, want))


def check_slices(ctx, net, m, a, b):
    """A sliced handle shows exactly the links whose far end matches."""
    asp = m.aspects
    if asp == 0:
        check_selected(ctx, net, m, a, (b[0],))
        check_selected(ctx, net, m, a, (None,))
        v = ctx.call("slice", lambda: net[a[0], :])
        got = sorted(map(repr, v))
        want = sorted(repr(x[0]) for x in set(m.out(a)) | set(m.inn(a)))
        ctx.check(got == want, "slice", lambda: "net[%r,:] shows %r, expected %r" % (a[0], got, want))
        return
    for mask in itertools.product((0, 1), repeat=asp + 1):
        if sum(mask) in (0,):
            continue
        item = tuple(x for k in range(asp + 1) for x in (a[k], COLON if mask[k] else b[k]))
        v = ctx.call("slice", lambda: net[item])
        ok = lambda n: all(mask[k] or n[k] == b[k] for k in range(asp + 1))
        out = dict((n, w) for n, w in m.out(a).items() if ok(n))
        inn = dict((n, w) for n, w in m.inn(a).items() if ok(n))
        both = set(out) | set(inn)
        for nm, f, want in (("iter", v.__iter__, both), ("iter_out", v.iter_out, out), ("iter_in", v.iter_in, inn)):
            got = ctx.call("slice-" + nm, lambda: list(f()))
            ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "slice",
                      lambda: "net[%r] %s shows %r, expected %r" % (item, nm, got, sorted(want)))
        sout, sinn = sum(out.values()), sum(inn.values())
        for nm, f, want in (("deg", v.deg, len(both)), ("deg_in", v.deg_in, len(inn)), ("deg_out", v.deg_out, len(out)),
                            ("str", v.str, sout + sinn if m.directed else sout), ("str_in", v.str_in, sinn), ("str_out", v.str_out, sout)):
            if nm == "str" and getattr(m, "fuzzy_total", False):
                continue
            got = ctx.call("slice-" + nm, f)
            ctx.check(got == want, "slice-" + nm, lambda: "net[%r].%s() is %r, expected %r" % (item, nm, got, want))
        check_selected(ctx, net, m, a, tuple(None if mask[k] else b[k] for k in range(asp + 1)))
    if a[1:] == b[1:]:
        item = (a[0], COLON) + a[1:]
        got = sorted(map(repr, ctx.call("slice-short", lambda: list(net[item]))))
        want = sorted(repr(n) for n in set(m.out(a)) | set(m.inn(a)) if n[1:] == a[1:])
        ctx.check(got == want, "slice-short", lambda: "net[%r] shows %r, expected %r" % (item, got, want))


def check_selected(ctx, net, m, a, dims):
    """Degrees and strengths for a selection of far ends given as arguments."""
    ok = lambda n: all(d is None or n[k] == d for k, d in enumerate(dims))
    out = dict((n, w) for n, w in m.out(a).items() if ok(n))
    inn = dict((n, w) for n, w in m.inn(a).items() if ok(n))
    both = set(out) | set(inn)
    h = net[idx(a)]
    sout, sinn = sum(out.values()), sum(inn.values())
    stot = sout + sinn if m.directed else sout
    for nm, want in (("deg", len(both)), ("deg_total", len(both)), ("deg_in", len(inn)), ("deg_out", len(out)),
                     ("str", stot), ("str_total", stot), ("str_in", sinn), ("str_out", sout)):
        if nm in ("str", "str_total") and getattr(m, "fuzzy_total", False):
            continue
        got = ctx.call("selected-" + nm, lambda: getattr(h, nm)(*dims))
        ctx.check(got == want, "selected-" + nm, lambda: "net[%r].%s%r is %r, expected %r" % (a, nm, dims, got, want))


def check_edges(ctx, net, m):
    got = edge_multiset(ctx, net, m.aspects, m.directed)
    want = m.edges()
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "edges",
              lambda: "edges yields %r, expected %r" % (sorted(got, key=repr), sorted(want, key=repr)))
    n = ctx.call("len_edges", lambda: len(net.edges))
    ctx.check(n == len(want), "edges-len", lambda: "len(edges) is %r, expected %r" % (n, len(want)))


def check_full(ctx, net, m, rng_pairs=None):
    uni = m.universe()
    for a in uni:
        check_nl(ctx, net, m, a)
        for b in uni:
            check_links(ctx, net, m, a, b)
    check_edges(ctx, net, m)
    if uni:
        for k, a in enumerate(uni):
            check_slices(ctx, net, m, a, uni[(k * 7 + len(m.e)) % len(uni)])


def execute(sc, ctx):
    import pymnet
    asp = sc["aspects"]
    node, layer = labels.make(sc["labels"], sc["salt"])
    noedge = NOEDGES[sc["noedge"]]
    net = pymnet.MultilayerNetwork(aspects=asp, noEdge=noedge, directed=sc["directed"], fullyInterconnected=sc["aligned"])
    m = RefNet(asp, sc["directed"], sc["aligned"], noedge)
    handles = {}
    iters = {}
    wn = [0]
    lastw = {}

    def weight(kind):
        wn[0] += 1
        w = {"int": wn[0] + 10, "float": wn[0] + 0.5, "neg": -wn[0] - 10, "zero": 0, "same": 1}[kind]
        if w == noedge:
            w = wn[0] + 10
        return w

    def write(c, form, a, b, w):
        if form == "short" and asp and a[1:] == b[1:]:
            net[(a[0], b[0]) + a[1:]] = w
        elif form == "node":
            net[idx(a)][idx(b)] = w
        elif form == "handle" and (c, a) in handles:
            ctx.hit("write_through_held_handle")
            handles[(c, a)][idx(b)] = w
        else:
            net[link(a, b)] = w

    for n, op in enumerate(sc["ops"]):
        ctx.steps += 1
        k, c = op[0], op[1]
        touched = []
        if k in ("set", "del"):
            a, b = mk_nl(op[3], node, layer), mk_nl(op[4], node, layer)
            if k == "del":
                if a[0] not in m.nodes or b[0] not in m.nodes or any(x[i + 1] not in m.layers[i] for x in (a, b) for i in range(asp)) \
                        or (not m.aligned and (a not in m.nls or b not in m.nls)):
                    continue
                w = noedge
                ctx.hit("delete_existing" if (a, b) in m.e else "delete_absent")
                if a == b and (a, b) in m.e:
                    ctx.hit("delete_selfloop")
            else:
                w = weight(op[5])
                ctx.hit("overwrite" if (a, b) in m.e else "new_edge")
            ctx.call(k, write, c, op[2], a, b, w)
            m.set(a, b, w)
            touched = [a, b]
            iters.clear()
        elif k == "node":
            a = mk_nl(op[2], node, layer)
            if op[3] and asp:
                ctx.call("add_node", net.add_node, a[0], layer=lay(a))
                m.add_node(a[0], a[1:])
            else:
                ctx.call("add_node", net.add_node, a[0])
                m.add_node(a[0])
            iters.clear()
        elif k == "layer":
            ctx.call("add_layer", net.add_layer, layer(op[2], op[3]), op[3])
            m.add_layer(layer(op[2], op[3]), op[3])
            iters.clear()
        elif k == "hold":
            a = mk_nl(op[2], node, layer)
            handles[(c, a)] = ctx.call("getitem", lambda: net[idx(a)])
        elif k == "refuse":
            a = mk_nl(op[3], node, layer)
            kind = op[2]
            before = len(m.e)
            try:
                if kind == "arity_get":
                    net[tuple(a) + tuple(a) + tuple(a)]
                elif kind == "arity_set":
                    net[tuple(a) + tuple(a) + tuple(a)] = 5
                elif kind == "unhashable_set":
                    # both ends unhashable: nothing can have been stored
                    net[link(([1],) + a[1:], ([2],) + a[1:])] = 5
                elif kind == "unhashable_get":
                    net[link(([1],) + a[1:], a)]
                elif kind == "colon_set":
                    net[link(a, a)[:-1] + ({},)] = 5
                refused = False
            except Exception as e:
                refused = True
                ctx.fault("refused:" + kind)
            ctx.check(refused or kind == "unhashable_get", "not-refused", lambda: "%s was accepted" % kind)
            if kind == "colon_set":
                # the near end of a refused write may have been registered
                m.touch(a) if a[0] in m.nodes or a[0] in net else None
                for i in range(asp):
                    for l in list(net.get_layers(i + 1)):
                        m.layers[i].add(l)
                if not m.aligned and asp:
                    for nl in list(net.iter_node_layers()):
                        m.nls.add(tuple(nl))
            elif kind == "unhashable_set":
                for i in range(asp):
                    for l in list(net.get_layers(i + 1)):
                        m.layers[i].add(l)
            iters.clear()
        elif k == "iter":
            a = mk_nl(op[2], node, layer)
            iters[c] = (a, iter(net[idx(a)]), [])
        elif k == "step" and c in iters:
            a, it, seen = iters[c]
            try:
                x = ctx.call("next", lambda: next(it, None))
            except StopIteration:
                x = None
            if x is None:
                want = set(m.out(a)) | set(m.inn(a))
                ctx.check(sorted(map(repr, seen)) == sorted(map(repr, want)), "open-iterator",
                          lambda: "iterator over %r gave %r, expected %r" % (a, seen, want))
                del iters[c]
                ctx.hit("iterator_finished_interleaved")
            else:
                seen.append(asnl(x, asp))
        ctx.emit(n, k, str(len(m.e)))
        for a in touched:
            check_nl(ctx, net, m, a)
        if len(touched) == 2:
            check_links(ctx, net, m, touched[0], touched[1])
            check_links(ctx, net, m, touched[1], touched[0])
        # held handles are live
        for (hc, a), h in sorted(handles.items(), key=repr):
            if a in touched:
                ctx.hit("held_handle_read_after_write")
                check_nl(ctx, net, m, a, h)
        if n % sc["full_every"] == 0:
            check_full(ctx, net, m)
    check_full(ctx, net, m)
    for (hc, a), h in sorted(handles.items(), key=repr):
        check_nl(ctx, net, m, a, h)
    # same content in another order is an equal network; one change is not
    other = rebuild(pymnet, m, sc)
    eq = ctx.call("eq", lambda: net == other)
    ctx.check(eq is True, "equality-history", "network rebuilt with the same content compares different")
    ne = ctx.call("ne", lambda: net != other)
    ctx.check(ne is False, "equality-history", "!= is true for a rebuilt network")
    if m.e:
        (a, b), w = sorted(m.e.items(), key=repr)[sc["salt"] % len(m.e)]
        nw = 12345 if w != 12345 else 12346
        other[link(a, b)] = nw
        ctx.check(ctx.call("eq", lambda: net == other) is False, "equality-weight", "a changed weight still compares equal")
        ctx.check(ctx.call("eq", lambda: other == net) is False, "equality-weight", "a changed weight still compares equal")
        other[link(a, b)] = noedge
        ctx.check(ctx.call("eq", lambda: net == other) is False, "equality-missing", "a missing edge still compares equal")
        ctx.check(ctx.call("eq", lambda: other == net) is False, "equality-missing", "a missing edge still compares equal")
    ctx.emit("final", str(sorted(m.e.items(), key=repr)))
    ctx.nontrivial = len(m.e) > 0 and len(sc["ops"]) > 5


def rebuild(pymnet, m, sc):
    net = pymnet.MultilayerNetwork(aspects=m.aspects, noEdge=m.no_edge, directed=m.directed, fullyInterconnected=sc["aligned"])
    for e, w in sorted(m.e.items(), key=repr, reverse=True):
        net[link(*e)] = w
    for n in sorted(m.nodes, reverse=True):
        net.add_node(n)
    for i in range(m.aspects):
        for l in sorted(m.layers[i], reverse=True):
            net.add_layer(l, i + 1)
    if not m.aligned:
        for nl in sorted(m.nls):
            net.add_node(nl[0], layer=lay(nl))
    return net


def shrink(sc):
    for k, v in (("labels", "int"), ("full_every", 1), ("aligned", True), ("directed", False), ("noedge", 0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    if sc["aspects"]:
        a = sc["aspects"] - 1
        def cut(op):
            op = [x[:a + 1] if isinstance(x, list) else x for x in op]
            return op
        yield dict(sc, aspects=a, ops=[cut(o) for o in sc["ops"] if not (o[0] == "layer" and o[3] > a)])
    for i, op in enumerate(sc["ops"]):
        for j, x in enumerate(op):
            if isinstance(x, list):
                for p, v in enumerate(x):
                    if v > 0:
                        o = list(op)
                        o[j] = x[:p] + [v - 1] + x[p + 1:]
                        yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1:])
            elif x in ("short", "node", "handle"):
                o = list(op)
                o[j] = "full"
                yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1:])
            elif x in ("float", "neg", "zero", "same"):
                o = list(op)
                o[j] = "int"
                yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1:])
