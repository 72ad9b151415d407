"""C17: results of analyses without randomness do not depend on build order,
hash order, the process or the random stream.

One network content is built again and again: in drawn orders, with links
written and removed on the way, with labels hashed under another salt (or all
colliding), under another random stream and in a second process with another
PYTHONHASHSEED.  Every replica runs the same analyses; the results must agree
label for label.  In the isomorphism mode, verdicts and mappings for a
relabelled and possibly edited replica are compared with an exhaustive search
over all relabellings."""
import itertools
import math

from sim import labels, rand
from sim.core import net_snapshot, rng_for
from checks import analyses, nets
from checks.common import link

SHRINK = ("calls", "variants")
KINDS = ["mono", "ml1", "ml1", "ml2", "mux1", "mux1", "mux1", "mux1", "mux2"] * 3 + ["ml3", "mux3"]


def generate(rng, tier):
    iso = rng.random() < 0.3
    kind = rng.choice(KINDS)
    if iso:
        # the solver of networkx takes exponential time on symmetric networks
        nn = rng.randint(1, 5 if kind == "mono" else 4 if kind[-1] == "1" else 3 if kind[-1] == "2" else 2)
        nlay = rng.randint(1, 1 if kind[-1] == "3" else max(1, 5 // nn) if kind[-1] == "2" else 3)
        sp = nets.gen(rng, kind, nn=nn, nlay=min(nlay, 3), directed=False)
        asp = sp["aspects"]
        sc = {"mode": "iso", "net": sp, "perms": [rng.getrandbits(30) for _ in range(asp + 1)], "edit": rng.choice(["none", "none", "toggle", "move", "move", "grow"]),
              "code": rng.getrandbits(30), "allowed": rng.choice(["all", "all", [a for a in range(asp + 1) if rng.random() < 0.6]]),
              "fixed": rng.random() < 0.5, "variants": [gen_variant(rng, 0.1) for _ in range(rng.randint(1, 2))]}
        if sc["allowed"] == []:
            sc["allowed"] = [0]
        return sc
    k = {}
    if kind == "mux1":
        k = {"aligned": rng.random() < 0.75, "directed": rng.random() < 0.15}
    sp = nets.gen(rng, kind, nlay=rng.randint(1, 3), noedge=[0] * 6 + [-1], **k)
    return {"mode": "plain", "net": sp, "variants": [gen_variant(rng, 0.15) for _ in range(rng.randint(1, 3))],
            "calls": [[rng.getrandbits(20), rng.getrandbits(10)] for _ in range(rng.randint(3, 10))]}


def gen_variant(rng, procs):
    return {"order": rng.getrandbits(40), "junk": rng.choice([0, 0, 2, 5]), "salt": rng.getrandbits(30), "hash": rng.choice(["spread", "spread", "few", "collide"]),
            "stream": rng.getrandbits(30), "proc": rng.randint(1, 2) if rng.random() < procs else 0}


def empty(net):
    return not len(net) or any(not len(net.get_layers(a + 1)) for a in range(net.aspects))


def choose(P, table, net, kind, calls):
    out = []
    for code, pick in calls:
        s = analyses.Sel(net, pick)
        ok = [a for a in table if not a.random and not a.local and a.applies(net, kind, s)]
        if code % 5 < 3:
            # what only this kind of network has, e.g. multiplex clustering
            ok = [a for a in ok if len(a.kinds) == 1] or ok
        if ok:
            out.append((ok[(code // 5) % len(ok)].name, pick))
    return out


def build_variant(P, sp, v):
    node, layer = nets.labelled(sp)
    if sp["labels"] in ("sim", "few", "collide"):
        labels.set_salt(v["salt"], v["hash"])
    return nets.build(P, sp, rng_for("c17", v["order"]), node, layer, v["junk"])


def run_jobs(P, net, jobs, stream):
    table = dict((a.name, a) for a in analyses.setup(P))
    out = []
    for i, (name, pick) in enumerate(jobs):
        rand.reset(stream + i, "mt", 1000000)
        out.append(analyses.outcome(table[name], P, net, pick))
    return out


def serve(payload):
    import pymnet as P
    sp, v = payload["net"], payload["variant"]
    net = build_variant(P, sp, v)
    if payload["what"] == "jobs":
        return net_snapshot(net), run_jobs(P, net, payload["jobs"], v["stream"])
    return iso_here(P, payload["sc"], net, v)


def close(a, b):
    """Equal up to rounding of numbers."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if len(a) == 2 and a[0] == "f" and b[0] == "f" and isinstance(a[1], float) and isinstance(b[1], float):
            return math.isclose(a[1], b[1], rel_tol=1e-7, abs_tol=1e-9)
        if all(close(x, y) for x, y in zip(a, b)):
            return True
        if a and a[0] in ("bag", "set") and a[0] == b[0]:
            rest = list(b[1:])
            for x in a[1:]:
                for i, y in enumerate(rest):
                    if close(x, y):
                        del rest[i]
                        break
                else:
                    return False
            return True
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-9)
    return False


def same(a, b):
    return close(a, b) if a[0] == "ok" else a[:2] == b[:2]


def kind_of(v):
    return "process" if v["proc"] else "replica"


def execute(sc, ctx):
    import pymnet as P
    table = analyses.setup(P)
    sp = sc["net"]
    rand.reset(1, "mt", 1000000)
    net = nets.build(P, sp)
    if empty(net):
        return
    if sc["mode"] == "iso":
        return iso(P, sc, ctx, net)
    kind = sp["kind"]
    snap = net_snapshot(net)
    jobs = choose(P, table, net, kind, sc["calls"])
    base = run_jobs(P, net, jobs, 0)
    del net
    for v in sc["variants"]:
        if v["proc"]:
            from checks import restart
            s, res = restart.call(1000 + v["proc"], "checks.c17", "serve", {"net": sp, "variant": v, "what": "jobs", "jobs": jobs})
            ctx.fault("other_process")
        else:
            other = build_variant(P, sp, v)
            s, res = net_snapshot(other), run_jobs(P, other, jobs, v["stream"])
            del other
        ctx.check(s == snap, "content:" + kind_of(v), lambda: "a replica holds %r, the first build %r" % (s, snap))
        ctx.fault("build_order")
        if sp["labels"] in ("sim", "few", "collide"):
            ctx.fault("hash_order")
        for (name, pick), x, y in zip(jobs, base, res):
            ctx.check(same(x, y), "differs:" + name, lambda: "%s: %r, first build %r" % (kind_of(v), y, x))
            ctx.hit("compared:" + name)
            ctx.steps += 1
    for (name, pick), x in zip(jobs, base):
        ctx.emit(name, repr(x[:2]))
        ctx.hit("result:" + x[0])
    ctx.nontrivial = bool(jobs) and len(sp["edges"]) > 0


# -- isomorphism ------------------------------------------------------------
def content(net):
    """(node-layers, links without weights) of an undirected network."""
    asp = net.aspects
    es = set()
    for e in net.edges:
        e = tuple(e)
        es.add(frozenset([tuple(e[2 * a] for a in range(asp + 1)), tuple(e[2 * a + 1] for a in range(asp + 1))]))
    nls = set((x if isinstance(x, tuple) else (x,)) for x in net.iter_node_layers())
    return nls, es


def elements(net):
    return [sorted(net.slices[a], key=repr) for a in range(net.aspects + 1)]


def apply(maps, nls, es):
    f = lambda x: tuple(m.get(v, v) for m, v in zip(maps, x))
    return set(f(x) for x in nls), set(frozenset(f(x) for x in e) for e in es)


def brute(A, ela, B, elb, allowed):
    """Is there a relabelling of the allowed aspects that maps A onto B?"""
    opts = []
    for a, (x, y) in enumerate(zip(ela, elb)):
        if a in allowed:
            if len(x) != len(y):
                return False
            opts.append([dict(zip(x, p)) for p in itertools.permutations(y)])
        else:
            opts.append([{}])
    return any(apply(ms, *A) == B for ms in itertools.product(*opts))


def other_net(P, sc, net, v):
    """The relabelled, possibly edited counterpart as a plain multilayer
    network, built in the order of the variant."""
    asp = net.aspects
    allowed = range(asp + 1) if sc["allowed"] == "all" else sc["allowed"]
    els = elements(net)
    maps = []
    for a, e in enumerate(els):
        p = list(e)
        if a in allowed:
            rng_for("perm", sc["perms"][a]).shuffle(p)
            if sc["allowed"] == "all":
                p = ["new-%s" % str(x) for x in p]
        maps.append(dict(zip(e, p)))
    nls, es = apply(maps, *content(net))
    key = lambda e: repr(sorted(e, key=repr))
    if sc["edit"] != "none":
        rng = rng_for("edit", sc["code"])
        pairs = sorted((frozenset(p) for p in itertools.combinations(sorted(nls, key=repr), 2)), key=key)
        have, free = [p for p in pairs if p in es], [p for p in pairs if p not in es]
        if sc["edit"] == "toggle" and pairs:
            es ^= set([rng.choice(pairs)])
        elif sc["edit"] == "move" and have and free:
            es -= set([rng.choice(have)])
            es |= set([rng.choice(free)])
    more = None
    if sc["edit"] == "grow":
        rng = rng_for("edit", sc["code"])
        more = rng.choice([a for a in range(asp + 1) if a not in allowed] or list(range(asp + 1)))
        x = "zz" if all(isinstance(y, str) for y in maps[more].values()) else 99
        if nls and not net.fullyInterconnected and rng.random() < 0.8:
            y = list(rng.choice(sorted(nls, key=repr)))
            y[more] = x
            nls = nls | set([tuple(y)])
        more = (more, x)
    rng = rng_for("other", v["order"])
    b = P.MultilayerNetwork(aspects=asp, fullyInterconnected=net.fullyInterconnected)
    todo = []
    for a in range(asp + 1):
        for x in sorted(maps[a].values(), key=repr) + ([more[1]] if more and more[0] == a else []):
            todo.append((lambda x=x: b.add_node(x)) if a == 0 else (lambda x=x, a=a: b.add_layer(x, a)))
    if not net.fullyInterconnected:
        for x in sorted(nls, key=repr):
            todo.append(lambda x=x: b.add_node(x[0], layer=x[1] if asp == 1 else x[1:]))
    for e in sorted(es, key=key):
        e = sorted(e, key=repr)
        if len(e) == 2:
            todo.append(lambda e=e: b.__setitem__(link(*(e if rng.random() < 0.5 else e[::-1])), rng.choice([1, 2.5])))
    rng.shuffle(todo)
    for t in todo:
        t()
    return b


def iso_here(P, sc, net, v):
    """Everything the replica says, with the judgement on its mapping."""
    from pymnet import isomorphisms as I
    b = other_net(P, sc, net, v)
    asp = net.aspects
    allowed = list(range(asp + 1)) if sc["allowed"] == "all" else sc["allowed"]
    A, B, ela, elb = content(net), content(b), elements(net), elements(b)
    truth = brute(A, ela, B, elb, allowed)
    out = {"truth": truth, "said": I.is_isomorphic(net, b, allowed_aspects=sc["allowed"]), "back": I.is_isomorphic(b, net, allowed_aspects=sc["allowed"])}
    m = I.get_isomorphism(net, b, allowed_aspects=sc["allowed"], include_fixed=sc["fixed"])
    out["mapped"] = m is not None
    out["bad"] = None
    if m is not None:
        if len(m) != asp + 1:
            out["bad"] = "%d permutations for %d aspects" % (len(m), asp)
        elif any(m[a] and a not in allowed and any(k != x for k, x in m[a].items()) for a in range(asp + 1)):
            out["bad"] = "an aspect that may not be permuted is permuted: %r" % (m,)
        elif any((set(m[a]) != set(ela[a])) if sc["fixed"] else any(k == x for k, x in m[a].items()) for a in range(asp + 1)):
            out["bad"] = "include_fixed=%r, but the mapping is %r" % (sc["fixed"], m)
        elif apply(m, *A) != B:
            out["bad"] = "the mapping %r does not give the second network" % (m,)
    return out


def iso(P, sc, ctx, net):
    sp = sc["net"]
    del net
    for v in sc["variants"]:
        if v["proc"]:
            from checks import restart
            out = restart.call(1000 + v["proc"], "checks.c17", "serve", {"net": sp, "variant": v, "what": "iso", "sc": sc})
            ctx.fault("other_process")
        else:
            net = build_variant(P, sp, v)
            rand.reset(v["stream"], "mt", 1000000)
            out = ctx.call("isomorphism", iso_here, P, sc, net, v)
            del net
        ctx.fault("build_order")
        t = out["truth"]
        ctx.check(out["said"] is t or out["said"] == t, "iso-verdict", lambda: "%r, but a relabelling %s" % (out, "exists" if t else "does not exist"))
        ctx.check(out["back"] == t, "iso-symmetry", lambda: repr(out))
        ctx.check(out["mapped"] == t, "iso-mapping-missing", lambda: repr(out))
        ctx.check(out["bad"] is None, "iso-mapping-wrong", lambda: out["bad"])
        ctx.hit("isomorphic" if t else "not-isomorphic")
        ctx.emit("iso", repr(t), repr(sc["allowed"]), sc["edit"])
        ctx.steps += 1
    ctx.nontrivial = len(sp["edges"]) > 0


def shrink(sc):
    for i, v in enumerate(sc["variants"]):
        for k, x in (("proc", 0), ("junk", 0), ("hash", "spread")):
            if v[k] != x:
                yield dict(sc, variants=sc["variants"][:i] + [dict(v, **{k: x})] + sc["variants"][i + 1:])
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    if sc["mode"] == "iso" and sc["edit"] != "none":
        yield dict(sc, edit="none")
