"""C12: a write that returns has written the whole network.

The writers run against a simulated disk (short writes, full disk, I/O errors
on open, write and close, crash at any raw operation, interrupts at any line,
tiny buffers) and against file objects of the caller that fail.  What is really
on the disk at the moment of return is parsed back independently."""
import gc
import json
import os
import re

from sim import fs, labels, rand
from sim.core import RealRandom, SimCrash, SimInterrupt, exact, freeze, net_snapshot
from sim.sched import Sched
from checks import nets
from checks.common import big

USES_TRACE = True
SHRINK = ("attempts",)
ODD = ["", " ", "a b", "\u00e4\u20ac", "'", '"', "\\", "\n", "</script>", "@netjson", "<!--<script", "\\'", "%s", "{}", "\u2028", "\t"]
WEIGHTS = [1, 2, 0.1, 1e-300, 12345678901234567890, 0.30000000000000004, -2.5, 7.0]


def generate(rng, tier):
    target = rng.choice(["json", "json", "edges", "edges", "web"])
    sp = nets.gen(rng, "mux1", nn=rng.randint(7, 30) if big(rng) else rng.randint(1, 6), nlay=rng.randint(5, 12) if big(rng) else rng.randint(1, 4), couplings=[rng.choice([["none", 1.0], ["categorical", 1.0], ["ordinal", 1.0]])], noedge=[0, 0, 0, -1])
    if rng.random() < 0.6:
        for e in sp["edges"]:
            e[2] = rng.choice(WEIGHTS)
    sp["labels"] = rng.choice(["int", "str", "sim", "odd", "mixed"] if target != "edges" else ["int", "str", "sim", "uni"])
    sc = {"target": target, "net": sp, "seed": rng.getrandbits(40), "dest": rng.choice(["path", "path", "path", "file", "string", "object"]) if target != "edges" else "path",
          "hold": rng.random() < 0.5, "edit": rng.random() < 0.3, "old": rng.choice([0, 0, 5000])}
    if target == "edges":
        sc["opt"] = {"weights": rng.random() < 0.7, "masterFile": rng.random() < 0.5, "numericNodes": rng.random() < 0.4,
                     "columnSeparator": rng.choice(["\t", " ", ",", ";;"]), "rowSeparator": rng.choice(["\n", "\n", "|", "\r\n"])}
    sc["attempts"] = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.15:
            sc["attempts"].append({"interrupt": round(rng.random(), 4), "what": rng.choice(["interrupt", "memory"]), "buf": 16, "chunk": 16})
        else:
            p = fs.gen_write_plan(rng, 150 + 60 * len(sp["edges"]))
            p["encoding"] = rng.choice(["utf-8", "utf-8", "ascii", "latin-1"])
            sc["attempts"].append(p)
    if rng.random() < 0.1:
        sc["attempts"] = []
    if rng.random() < 0.0015:
        sc["huge"] = rng.choice([145, 150, 260])      # 10440 links, and more
        sc["attempts"] = []
    sc["final"] = {"buf": 8192, "chunk": 8192} if "huge" in sc else {"buf": rng.choice([1, 16, 8192]), "chunk": rng.choice([1, 16, 8192])}
    return sc


def odd_names(r, n):
    """Texts that differ, some in one character only."""
    out = r.sample(ODD, len(ODD) // 2)
    bits = ODD + [" ", " ", "a", "A", "e\u0301", "\u00e9", "0", "00", "\u200b", "\x7f", "&amp;", "\r", "\x00"]
    while len(out) < n:
        x = "".join(r.choice(bits) for _ in range(r.randint(1, 4)))
        if r.random() < 0.3:
            x = r.choice(out) + x[:1]
        if x not in out:
            out.append(x)
    head = out[:40]
    r.shuffle(head)
    return head + out[40:]


def label_makers(sp):
    m = sp["labels"]
    if m == "odd":
        r = RealRandom(sp["salt"])
        names, lnames = odd_names(r, 400), odd_names(r, 64)
        node, layer = (lambda i: names[i]), (lambda i, a=1: lnames[i])
    elif m == "mixed":
        node = lambda i: i // 2 if i % 2 else str(i // 2)
        layer = lambda i, a=1: i // 2 if i % 2 else str(i // 2)
    elif m == "uni":
        node, layer = (lambda i: "\u00e9\u4e2d"[i % 2] + str(i)), (lambda i, a=1: "L" + "\u00df" * (i % 2) + str(i))
    else:
        node, layer = labels.make(m, sp["salt"])
    if any(c[0] == "ordinal" for c in sp["couplings"]):
        layer = lambda i, a=1: i
    return node, layer


class Recorder(object):
    """A file object of the caller; remembers what it was given."""

    def __init__(self, fail=None):
        self.parts = []
        self.fail = fail
        self.n = 0
        self.hit = False
        self.closed = False

    def write(self, s):
        self.n += 1
        if self.fail == self.n:
            self.hit = True
            raise OSError(28, "injected: no space left")
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True


def want_json(net):
    links = []
    for l in net.get_layers():
        for e in net.A[l].edges:
            x, y = jl(e[0]), jl(e[1])
            if not net.directed:
                x, y = sorted((x, y))
            links.append((x, y, exact(e[2]), jl(l)))
    return {"nodes": sorted(jl(n) for n in net), "layers": sorted(jl(l) for l in net.get_layers()), "links": sorted(links, key=repr)}


def jl(x):
    return json.dumps(x)


def got_json(ctx, text, directed):
    d = json.loads(text)
    nodes = [n["name"] for n in d["nodes"]]
    layers = [l["name"] for l in d["layers"]]
    links = []
    for k in d["links"]:
        for i in (k["source"], k["target"], k["layer"]):
            ctx.check(isinstance(i, int) and i >= 0, "json-index", repr(k))
        x, y = jl(nodes[k["source"]]), jl(nodes[k["target"]])
        if not directed:
            x, y = sorted((x, y))
        links.append((x, y, exact(k["value"]), jl(layers[k["layer"]])))
    return {"nodes": sorted(map(jl, nodes)), "layers": sorted(map(jl, layers)), "links": sorted(links, key=repr)}


def same_json(ctx, text, net, what):
    try:
        got = got_json(ctx, text, net.directed)
    except (ValueError, KeyError, IndexError, TypeError) as e:
        ctx.fail("incomplete:" + what, "%s: %s in %r" % (type(e).__name__, e, text[-300:]))
    want = want_json(net)
    ctx.check(got == want, "wrong-content:" + what, lambda: "file describes %r, network is %r" % (got, want))


JSESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}


def js_literal(ctx, text, start):
    """The JavaScript string literal that starts at text[start]."""
    q = text[start]
    out = []
    i = start + 1
    while True:
        ctx.check(i < len(text), "page-broken", "string literal does not end")
        c = text[i]
        ctx.check(c not in "\n\r", "page-broken", lambda: "line break in a string literal: %r" % text[start:i][-80:])
        if c == q:
            return "".join(out), i + 1
        if c == "\\":
            i += 1
            c = text[i]
            if c == "x":
                out.append(chr(int(text[i + 1:i + 3], 16)))
                i += 2
            elif c == "u":
                out.append(chr(int(text[i + 1:i + 5], 16)))
                i += 4
            else:
                out.append(JSESC.get(c, c))
        else:
            out.append(c)
        i += 1


def same_page(ctx, text, net, what, full=True):
    if full:
        ctx.check(text.startswith("<html><body>") and text.endswith("</body></html>"), "incomplete:" + what, lambda: repr(text[-80:]))
    ctx.check(text.count("<script") == text.count("</script>") == 2 and "<!--" not in text, "page-broken", "the script element is not closed where it should be")
    m = re.search(r"JSON\.parse\(\s*(?=['\"])", text)
    ctx.check(m is not None, "page-broken", "no network data in the page")
    data, end = js_literal(ctx, text, m.end())
    ctx.check(text[end:end + 2] == ");", "page-broken", lambda: "after the data: %r" % text[end:end + 40])
    same_json(ctx, data, net, what)


def check_edges(ctx, base, net, opt, node_order, encoding):
    d, stem = os.path.split(base)
    files = set(os.listdir(d))
    want = set(stem + str(l) + ".edg" for l in net.get_layers())
    if opt["masterFile"]:
        want.add(stem + ".txt")
    ctx.check(files >= want, "incomplete:edges", lambda: "missing files %r" % sorted(want - files))
    num = dict((n, i) for i, n in enumerate(node_order))
    for l in net.get_layers():
        text = fs.content(base + str(l) + ".edg").decode(encoding)
        rows = text.split(opt["rowSeparator"])
        ctx.check(rows[-1] == "", "incomplete:edges", lambda: "last row %r is not ended" % rows[-1])
        got = []
        for r in rows[:-1]:
            f = r.split(opt["columnSeparator"])
            ctx.check(len(f) == (3 if opt["weights"] else 2), "wrong-content:edges", lambda: "row %r" % r)
            got.append(tuple(f[:2] if net.directed else sorted(f[:2])) + ((exact(float(f[2])),) if opt["weights"] else ()))
        exp = []
        for e in net.A[l].edges:
            a, b = (num[e[0]], num[e[1]]) if opt["numericNodes"] else e[:2]
            a, b = str(a), str(b)
            exp.append(tuple([a, b] if net.directed else sorted([a, b])) + ((exact(float(e[2])),) if opt["weights"] else ()))
        ctx.check(sorted(got, key=repr) == sorted(exp, key=repr), "wrong-content:edges", lambda: "layer %r file has %r, network %r" % (l, sorted(got, key=repr), sorted(exp, key=repr)))
    if opt["masterFile"]:
        text = fs.content(base + ".txt").decode(encoding)
        got = sorted(text.split("\n"))
        exp = sorted([stem + str(l) + ".edg;" + str(l) + ";" for l in net.get_layers()] + [""])
        ctx.check(got == exp, "wrong-content:edges", lambda: "master file lists %r, should %r" % (got, exp))


def execute(sc, ctx):
    import pymnet as P
    rand.reset(sc["seed"])
    fs.clear()
    sp = sc["net"]
    node, layer = label_makers(sp)
    net = nets.build(P, sp, RealRandom(sc["seed"]), node, layer)
    if "huge" in sc and len(list(net.get_layers())):
        l = sorted(net.get_layers(), key=repr)[0]
        new = [90000 + i if sp["labels"] == "int" else "h%d" % i for i in range(sc["huge"])]
        for i, x in enumerate(new):
            for y in new[:i]:
                net[x, y, l, l] = 1
        ctx.hit("huge")
    before = freeze(net)
    base = os.path.join(fs.root(), "out")
    if sc["old"]:
        for n in [base + str(l) + ".edg" for l in net.get_layers()] if sc["target"] == "edges" else [base]:
            fs.put(n, b"x" * sc["old"])
    held = []
    for a in sc["attempts"]:
        ctx.steps += 1
        attempt(P, sc, ctx, net, base, a, held)
        ctx.check(net_snapshot(net) == before, "network-changed", "by a write")
    if sc["edit"] and sp["edges"]:
        # the retry writes a smaller network
        e = sp["edges"][0]
        l = e[0][1]
        net[node(e[0][0]), node(e[1][0]), layer(l), layer(l)] = net.noEdge
        before = freeze(net)
    ctx.emit("retry")
    attempt(P, sc, ctx, net, base, sc["final"], held, final=True)
    if held:
        # objects of failed attempts disappear only now
        ctx.hit("held_errors")
        last = held.pop()
        del held[:]
        with fs.mounted(fs.Disk({"encoding": last[1]})):
            gc.collect()
        verify(sc, ctx, net, base, last[2], last[1], "after-cleanup")
    ctx.check(net_snapshot(net) == before, "network-changed", "by the retry")
    ctx.nontrivial = len(sp["edges"]) > 0 and len(sc["attempts"]) > 0


def verify(sc, ctx, net, base, out, enc, when):
    t = sc["target"]
    if t == "edges":
        check_edges(ctx, base, net, sc["opt"], list(net), enc)
        return
    if sc["dest"] == "string":
        text = out
        ctx.check(isinstance(text, str), "incomplete:" + t, "returned %r" % type(text))
    elif sc["dest"] == "object":
        text = "".join(out.parts)
    else:
        text = fs.content(base).decode(enc)
    if t == "json":
        same_json(ctx, text, net, "json")
    else:
        same_page(ctx, text, net, "web", full=sc["dest"] != "string")
    ctx.hit("verified:" + t + ":" + sc["dest"])


def attempt(P, sc, ctx, net, base, plan, held, final=False):
    disk = fs.Disk(plan, ctx)
    out = [None]

    def write(dest):
        if sc["target"] == "edges":
            return P.netio.write_edge_files(net, base, **sc["opt"])
        f = P.netio.write_json if sc["target"] == "json" else P.webplot
        if sc["dest"] == "string":
            return f(net)
        return f(net, dest)

    def job():
        if sc["dest"] == "path":
            return write(base)
        if sc["dest"] == "file":
            return write(fs.sim_open(base, "w"))
        if sc["dest"] == "object":
            r = Recorder(None if final else plan.get("crash", plan.get("space", None)))
            out[0] = r
            return write(r)
        out[0] = write(None)
        return out[0]

    with fs.mounted(disk):
        err = None
        if "interrupt" in plan and not final:
            s = Sched({"mode": "explicit", "switches": []})
            s.spawn(job)
            s.run()
            lines = max(1, s.threads[0].lines)
            s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (1 + int(plan["interrupt"] * lines) % lines, plan["what"])})
            s.spawn(job)
            r = s.run()[0]
            if s.fired:
                ctx.fault(plan["what"])
                ctx.check(r[0] == "exc", "fault-lost", "an interrupt was swallowed")
            ctx.emit("interrupted", repr(s.fired), r[0])
            if r[0] == "ok":
                verify(sc, ctx, net, base, out[0], disk.encoding, "interrupted")
            return
        try:
            job()
        except (SimCrash, OSError, UnicodeError, MemoryError) as e:
            err = e
        if disk.dead:
            # the process is gone and with it everything in memory
            disk.dead = True
            if err is not None:
                import traceback
                traceback.clear_frames(err.__traceback__)
            err = None
            ctx.emit("crashed", repr(sorted(disk.n.items())))
            return
        ctx.emit(sc["target"], sc["dest"], repr(sorted(disk.n.items())), repr(disk.hard), repr(disk.soft), type(err).__name__)
        rec = out[0] if sc["dest"] == "object" else None
        if err is None:
            ctx.check(not disk.hard and not (rec is not None and rec.hit), "fault-lost", lambda: "the write returned although %r was reported to it" % (disk.hard or "a write error"))
            verify(sc, ctx, net, base, out[0], disk.encoding, "return")
            ctx.hit("returned_final" if final else "returned")
            # nothing may still be on its way to the disk
            verify(sc, ctx, net, base, out[0], disk.encoding, "later")
            ctx.check(not disk.hard, "fault-lost", lambda: "after the return %r" % disk.hard)
        else:
            bad = disk.hard or (rec is not None and rec.hit) or isinstance(err, UnicodeError) and disk.encoding != "utf-8"
            ctx.check(bad and not final, "spurious-error", lambda: "%s: %s without a fault" % (type(err).__name__, err))
            if rec is not None and rec.hit:
                ctx.fault("write_error")
            ctx.hit("raised")
    if sc["hold"] and err is not None and sc["dest"] == "path":
        held.append([err, disk.encoding, out[0]])
    elif final and held:
        held.append([None, disk.encoding, out[0]])
    del err


def shrink(sc):
    if "huge" in sc:
        yield dict((k, v) for k, v in sc.items() if k != "huge")
    for sp in nets.shrink(sc["net"]):
        yield dict(sc, net=sp)
    for k, v in (("hold", False), ("edit", False), ("old", 0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    if sc["net"]["labels"] != "int":
        yield dict(sc, net=dict(sc["net"], labels="int"))
