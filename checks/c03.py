"""C03: couplings and intra-layer networks of multiplex networks agree on
every access path, over histories of interleaved clients."""
from checks import c01, mux
from checks.common import edge_ends, link

SHRINK = ("ops",)


def generate(rng, tier):
    sc = mux.gen_config(rng)
    sc["full_every"] = rng.choice([1, 4, 10])
    sc["ops"] = mux.gen_ops(rng, sc, rng.randint(3, 30 if tier == "quick" else 70))
    return sc


def check_intra(ctx, s, m):
    """Everything the intra-layer networks report."""
    for l in m.layer_tuples():
        A = ctx.call("A", s.A, l)
        d = m.intra.get(l, {})
        nodes = [n for n in m.nodes if m.on(n, l)]
        for i in nodes:
            out = dict((y, w) for (x, y), w in d.items() if x == i)
            inn = dict((x, w) for (x, y), w in d.items() if y == i)
            both = set(out) | set(inn)
            for nm, f, want in (("A.iter", lambda: A[i], both), ("A.iter_out", lambda: A[i].iter_out(), out), ("A.iter_in", lambda: A[i].iter_in(), inn)):
                got = ctx.call(nm, lambda: sorted(map(repr, f())))
                ctx.check(got == sorted(map(repr, want)), nm, lambda: "A[%r][%r]: %r, expected %r" % (l, i, got, sorted(want)))
            st = sum(out.values()) + (sum(inn.values()) if m.directed else 0)
            for nm, f, want in (("A.deg", A[i].deg, len(both)), ("A.deg_out", A[i].deg_out, len(out)), ("A.deg_in", A[i].deg_in, len(inn)),
                                ("A.str", A[i].str, st)):
                got = ctx.call(nm, f)
                ctx.check(got == want, nm, lambda: "A[%r][%r]: %r, expected %r" % (l, i, got, want))
            for j in nodes:
                if i != j:
                    want = d.get((i, j), m.no_edge)
                    got = ctx.call("A.get", lambda: A[i, j])
                    ctx.check(got == want, "A.link", lambda: "A[%r][%r,%r] is %r, expected %r" % (l, i, j, got, want))
        got = []
        for e in ctx.call("A.edges", lambda: list(A.edges)):
            a, b = edge_ends(tuple(e), 0)
            if not m.directed and repr(a) > repr(b):
                a, b = b, a
            got.append((a[0], b[0], e[-1]))
        want = set()
        for (i, j), w in d.items():
            if not m.directed and repr((i,)) > repr((j,)):
                i, j = j, i
            want.add((i, j, w))
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "A.edges", lambda: "A[%r].edges: %r, expected %r" % (l, got, want))
        n = ctx.call("A.len", lambda: len(A.edges))
        ctx.check(n == len(want), "A.edges-len", lambda: "len(A[%r].edges) is %r, expected %r" % (l, n, len(want)))


def full(ctx, s):
    f = s.m.flat()
    c01.check_full(ctx, s.net, f)
    check_intra(ctx, s, s.m)
    uni = f.universe()
    if f.e and any(a[1:] != b[1:] for a, b in f.e):
        ctx.hit("couplings_present")
    if not s.m.aligned and any(a not in f.nls for a in uni):
        ctx.hit("node_missing_from_a_layer")


def execute(sc, ctx):
    s = mux.MuxSim(sc, ctx)
    for n, op in enumerate(sc["ops"]):
        ctx.steps += 1
        touched = s.step(op)
        if touched is None:
            continue
        ctx.emit(n, op[0], str(len(s.m.intra)), str(sum(len(d) for d in s.m.intra.values())))
        if touched:
            f = s.m.flat()
            for a in touched:
                c01.check_nl(ctx, s.net, f, a)
                for b in touched:
                    c01.check_links(ctx, s.net, f, a, b)
            for (c, a), h in sorted(s.handles.items(), key=repr):
                if a in touched:
                    ctx.hit("held_handle_read_after_write")
                    c01.check_nl(ctx, s.net, f, a, h)
        if n % sc["full_every"] == 0:
            full(ctx, s)
    full(ctx, s)
    # the same content built in another order is an equal network
    other = rebuild(s)
    ctx.check(ctx.call("eq", lambda: s.net == other) is True, "equality-history", "rebuilt multiplex network compares different")
    flat = [(l, e, w) for l in sorted(s.m.intra, key=repr) for e, w in sorted(s.m.intra[l].items(), key=repr)]
    if flat:
        l, (i, j), w = flat[sc["salt"] % len(flat)]
        s.A(l, other)[i, j] = 4321
        ctx.check(ctx.call("eq", lambda: s.net == other) is False, "equality-weight", "a changed weight still compares equal")
        s.A(l, other)[i, j] = s.noedge
        ctx.check(ctx.call("eq", lambda: s.net == other) is False, "equality-missing", "a missing link still compares equal")
    ctx.emit("final", repr(flat))
    ctx.nontrivial = bool(flat) and len(sc["ops"]) > 5


def rebuild(s):
    net = s.build_empty()
    m = s.m
    for a in range(m.aspects):
        for l in sorted(m.layers[a], reverse=True):
            net.add_layer(l, a + 1)
    for n in sorted(m.nodes, reverse=True):
        net.add_node(n)
    for l in sorted(m.layer_tuples(), reverse=True):
        if not m.aligned:
            for n in sorted(m.lnodes.get(l, ()), reverse=True):
                s.A(l, net).add_node(n)
        for (i, j), w in sorted(m.intra.get(l, {}).items(), reverse=True, key=repr):
            net[(i, j) + l] = w
    return net


def shrink(sc):
    return mux.shrink_config(sc)
