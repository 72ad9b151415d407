"""C04: read-only analyses leave their network alone and do not influence each
other.

Modes
  plain    a sequence of analyses; the network is compared after each, the
           caller's arguments too
  fault    one analysis is interrupted (KeyboardInterrupt, MemoryError) at a
           chosen executed line; the network is compared, then the analysis is
           run again to completion
  threads  two or three simulated threads analyse one network; the scheduler
           switches between any two executed library lines
  edits    an edit, an analysis, the undo of the edit: results equal those on a
           freshly built network (nothing stale is remembered)
"""
from sim import labels, rand
from sim.core import RealRandom, SimInterrupt, freeze
from sim.sched import Sched
from checks import analyses, nets
from checks.common import link, shrink_plan

USES_TRACE = True
SHIELD = ("nxwrap.py",)
SHRINK = ("calls", "edits")
KINDS = ["mono", "ml1", "ml2", "mux1", "mux1", "mux1", "mux2"] * 3 + ["ml3", "mux3"]


def generate(rng, tier):
    mode = rng.choice(["plain", "plain", "fault", "threads", "threads", "threads", "threads", "edits"])
    kind = rng.choice(KINDS)
    small = mode in ("threads", "fault")
    sp = nets.gen(rng, kind, nn=rng.randint(2, 4) if small else None, nlay=rng.randint(1, 3), noedge=[0] * 6 + [-1])
    sc = {"mode": mode, "net": sp, "seed": rng.getrandbits(40)}
    ncalls = {"plain": rng.randint(6, 14), "fault": rng.randint(1, 3), "threads": rng.randint(2, 3), "edits": rng.randint(2, 5)}[mode]
    sc["calls"] = [[rng.getrandbits(20), rng.getrandbits(10)] for _ in range(ncalls)]
    if mode == "fault":
        sc["fault"] = rng.choice(["interrupt", "memory"])
        for c in sc["calls"]:
            c.append(round(rng.random(), 4))
    elif mode == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(30), "p": rng.choice([0.02, 0.15, 0.4, 0.6])}
        if rng.random() < 0.5:
            # the same analysis in all threads
            sc["calls"] = [list(sc["calls"][0]) for _ in sc["calls"]]
    elif mode == "edits":
        sc["edits"] = [[rng.getrandbits(16), rng.choice(["weight", "remove", "add"])] for _ in range(rng.randint(1, 3))]
    return sc


def choose(table, net, kind, code, pick, heavy=True, rnd=True):
    s = analyses.Sel(net, pick)
    ok = [a for a in table if a.applies(net, kind, s) and (heavy or not a.heavy or a.name.startswith("isomorphic")) and (rnd or not a.random)]
    return ok[code % len(ok)] if ok else None


def unchanged(ctx, net, before, what):
    after = analyses.snapshot(net)
    if after != before:
        ctx.fail("network-changed:" + what, diff(before, after))


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    return diff(x, y)
        gone = [x for x in a if x not in b]
        new = [y for y in b if y not in a]
        return "gone %r, new %r" % (gone[:3], new[:3])
    return "%r became %r" % (a, b)


def execute(sc, ctx):
    import pymnet
    table = analyses.setup(pymnet)
    sp = sc["net"]
    rand.reset(sc["seed"])
    net = nets.build(pymnet, sp)
    if not len(net) or (net.aspects and not all(len(net.get_layers(a + 1)) for a in range(net.aspects))):
        return
    kind = sp["kind"]
    before = freeze(net, analyses.snapshot(net))
    getattr_mode = {"plain": plain, "fault": fault, "threads": threads, "edits": edits}[sc["mode"]]
    getattr_mode(pymnet, table, sc, ctx, net, kind, before)
    ctx.nontrivial = len(sp["edges"]) > 0


def plain(P, table, sc, ctx, net, kind, before):
    for code, pick in sc["calls"]:
        a = choose(table, net, kind, code, pick)
        if a is None:
            continue
        ctx.steps += 1
        rand.resume_budget()
        r = analyses.outcome(a, P, net, pick)
        ctx.hit("ran:" + a.name)
        ctx.hit("result:" + r[0])
        unchanged(ctx, net, before, a.name)
        if not a.random:
            r2 = analyses.outcome(a, P, net, pick)
            ctx.check(r2 == r, "repeat:" + a.name, lambda: "second call gives %r, first gave %r" % (r2, r))
            unchanged(ctx, net, before, a.name)
        ctx.emit(a.name, repr(r if not a.random and not a.local else r[0]))


def fault(P, table, sc, ctx, net, kind, before):
    for code, pick, frac in sc["calls"]:
        a = choose(table, net, kind, code, pick, heavy=False)
        if a is None:
            continue
        ctx.steps += 1
        rand.reset(sc["seed"] + 1)
        s = Sched({"mode": "explicit", "switches": []}, shielded=SHIELD)
        s.spawn(lambda: analyses.outcome(a, P, net, pick))
        res = s.run()[0]
        lines = s.threads[0].lines
        unchanged(ctx, net, before, a.name)
        if lines == 0:
            continue
        k = 1 + int(frac * lines)
        # interrupted at line k
        rand.reset(sc["seed"] + 1)
        s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (min(k, lines), sc["fault"])}, shielded=SHIELD)
        s.spawn(lambda: a.fn(P, net, analyses.Sel(net, pick)))
        s.run()
        if s.fired:
            ctx.fault(sc["fault"])
            ctx.hit("interrupted:" + a.name)
        unchanged(ctx, net, before, a.name + ":" + sc["fault"])
        # and again to the end
        rand.reset(sc["seed"] + 1)
        r = analyses.outcome(a, P, net, pick)
        if res[0] == "ok" and not a.random:
            ctx.check(r == res[1], "after-fault:" + a.name, lambda: "after an interrupted call: %r, before: %r" % (r, res[1]))
        unchanged(ctx, net, before, a.name)
        ctx.emit(a.name, str(lines), str(k), repr(r if not a.random and not a.local else r[0]))


def threads(P, table, sc, ctx, net, kind, before):
    jobs = []
    for code, pick in sc["calls"]:
        a = choose(table, net, kind, code, pick, heavy=False)
        if a is not None:
            jobs.append((a, pick))
    if not jobs:
        return
    rand.reset(sc["seed"] + 1)
    solo = [analyses.outcome(a, P, net, pick) for a, pick in jobs]
    unchanged(ctx, net, before, "solo")
    rand.reset(sc["seed"] + 1)
    s = Sched(sc["plan"], max_yields=1500000)
    for a, pick in jobs:
        s.spawn(lambda a=a, pick=pick: analyses.outcome(a, P, net, pick))
    res = s.run()
    ctx.steps += s.yields
    ctx.hit("thread_switches", len(s.switches))
    for (a, pick), r, alone in zip(jobs, res, solo):
        if r[0] != "ok":
            if isinstance(r[1], rand.DrawBudget):
                raise r[1]
            ctx.fail("thread:" + a.name, "raised %r" % (r[1],))
        ctx.hit("threaded:" + a.name)
        if a.random:
            ctx.check(r[1][0] == alone[0], "thread:" + a.name, lambda: "%r, alone %r" % (r[1], alone))
        else:
            ctx.check(r[1] == alone, "thread:" + a.name, lambda: "next to other analyses %r, alone %r" % (r[1], alone))
    unchanged(ctx, net, before, "threads:" + "+".join(sorted(set(a.name for a, p in jobs))))
    ctx.emit("threads", "+".join(a.name for a, p in jobs), repr(s.switches[:50]), str(s.yields))


def edits(P, table, sc, ctx, net, kind, before):
    sp = sc["net"]
    node, layer = nets.labelled(sp)
    jobs = [(choose(table, net, kind, code, pick, rnd=False), pick) for code, pick in sc["calls"]]
    jobs = [(a, pick) for a, pick in jobs if a is not None and not a.local]
    first = [analyses.outcome(a, P, net, pick) for a, pick in jobs]
    for code, what in sc["edits"]:
        cur = [list(e) for e in sp["edges"]]
        if what == "add":
            if not sp["nls"]:
                continue
            x, y = sp["nls"][code % len(sp["nls"])], sp["nls"][(code // 64) % len(sp["nls"])]
            if x == y or (kind.startswith("mux") and x[1:] != y[1:]) or any(repr((e[0], e[1])) in (repr((x, y)), repr((y, x))) for e in cur):
                continue
            k = link(nets.tup(x, node, layer), nets.tup(y, node, layer))
            old = net.noEdge
            new = 2
            edited = cur + [[x, y, new]]
        else:
            if not cur:
                continue
            e = cur[code % len(cur)]
            k = link(nets.tup(e[0], node, layer), nets.tup(e[1], node, layer))
            old = e[2]
            new = net.noEdge if what == "remove" else e[2] + 1
            edited = [f for f in cur if f is not e] + ([[e[0], e[1], new]] if what != "remove" else [])
        net[k] = new
        fresh = nets.build(P, dict(sp, edges=edited))
        ctx.steps += 1
        ctx.hit("edit:" + what)
        for a, pick in jobs:
            r = analyses.outcome(a, P, net, pick)
            w = analyses.outcome(a, P, fresh, pick)
            ctx.check(same_result(r, w), "after-edit:" + a.name, lambda: "%r, on a fresh network with that content %r" % (r, w))
        net[k] = old
        for (a, pick), w in zip(jobs, first):
            r = analyses.outcome(a, P, net, pick)
            ctx.check(same_result(r, w), "after-undo:" + a.name, lambda: "%r, originally %r" % (r, w))
        unchanged(ctx, net, before, "edit and undo")
        ctx.emit(what, repr(k), "+".join(a.name for a, p in jobs))


def same_result(a, b):
    return a == b if a[0] == "ok" else a[:2] == b[:2]


def shrink(sc):
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    if sc["mode"] == "threads":
        import sys
        for c in shrink_plan(sys.modules[__name__], sc):
            yield c
