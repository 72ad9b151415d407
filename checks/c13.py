"""C13: reading a network file is faithful or fails, never partial.

A network is described in a generated UCINET DL or edge-list text (letter
case, header form, label layout, wrapping, spacing all drawn) and read through
every delivery: a path on a simulated disk (short reads, interrupted system
calls, errors on open and read, tiny buffers), an open file, a string buffer,
lists, generators and iterators that fail part way, several readers at once.
The text is also cut at a drawn offset, as a torn write leaves it, or damaged in
another way (values and lines lost, repeated or replaced, a header that does not
fit): such a file must be refused."""
import io

from sim import fs
from sim.core import Hang, canon, exact
from sim.sched import Sched
from checks.common import RefMux, RefNet, asnl, edge_multiset, shrink_plan

USES_TRACE = True
SHRINK = ("attempts",)
VALUES = ["1", "1", "1", "2", "0.5", "2.5", "-1", "1e0", "3.0", "17", "0.001", "+4"]
ZEROS = ["0", "0", "0", "0.0", "-0", "00"]
LABELS = ["a", "b", "c", "ann lee", "data", "labels:", "x-1", "\u00e9t\u00e9", "0", "1", "10", "n=3", "dl", "bob", "row labels", "level labels:", "'", "(2 1)"]
WORDS = ["a", "b", "c", "d", "data", "labels:", "x-1", "\u00e9t\u00e9", "0", "1", "10", "dl", "bob", "'q'", "nm=2", "e"]
VIA = ["path", "path", "path", "path", "file", "text", "lines", "bare", "tuple", "gen", "gen", "iter"]


def generate(rng, tier):
    if rng.random() < 0.25:
        d = gen_edges(rng)
    else:
        d = gen_ucinet(rng)
    size = 60 + 6 * len(d.get("rows", d.get("links"))) * d.get("n", 1)
    sc = {"d": d, "attempts": []}
    for _ in range(rng.randint(1, 4)):
        sc["attempts"].append(gen_attempt(rng, size, d["f"]))
    if rng.random() < 0.3:
        sc["threads"] = {"n": rng.randint(2, 3), "seed": rng.getrandbits(30), "stop": rng.random() < 0.3}
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(40), "p": rng.choice([0.02, 0.2, 1.0])}
    return sc


DAMAGE = ["value-lost", "value-lost", "value-extra", "value-extra", "line-lost", "line-lost", "line-repeated", "line-repeated", "not-a-number",
          "not-dl", "size", "format", "command", "label-extra", "no-data", "redundant"]


def gen_attempt(rng, size, f):
    a = {"via": rng.choice(VIA), "plan": {"buf": rng.choice([1, 5, 16, 64, 8192]), "chunk": rng.choice([1, 3, 16, 8192])}, "cut": None, "fail": None}
    r = rng.random()
    if r < 0.45:
        a["cut"] = round(rng.random(), 4)
    elif r < 0.6 and a["via"] in ("gen", "iter"):
        a["fail"] = [round(rng.random(), 3), rng.choice(["os", "stop", "value", "key", "interrupt"])]
    elif r < 0.8 and f == "ucinet":
        a["damage"] = [rng.choice(DAMAGE), rng.getrandbits(30)]
    if rng.random() < 0.6:
        a["plan"] = fs.gen_read_plan(rng, size)
    return a


def gen_edges(rng):
    directed = rng.random() < 0.3
    nn, nl = rng.randint(1, 5), rng.randint(1, 4)
    large = rng.random() < 0.03
    if large:
        nn, nl = rng.randint(9, 130), rng.randint(1, 12)
    links = {}
    for _ in range(rng.randint(0, 12) + 30 * large):
        x, y, l = rng.randint(0, nn), rng.randint(0, nn), rng.randint(1, nl)
        k = (l, x, y) if directed or x <= y else (l, y, x)
        if k not in links:
            links[k] = [l, x, y, rng.choice([v for v in VALUES])]
    links = list(links.values())
    rng.shuffle(links)
    return {"f": "edges", "links": links, "sep": rng.choice([" ", "\t", "  ", " \t "]), "nl": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.7,
            "directed": directed, "self": rng.random() < 0.3 and not any(l[1] == l[2] for l in links), "couplings": rng.choice(["categorical", "ordinal", "none"]), "aligned": rng.random() < 0.6}


def gen_ucinet(rng):
    n = rng.randint(7, 14) if rng.random() < 0.02 else rng.randint(1, 6)
    nm = rng.choice([1, 1, 2, 3])
    layout = rng.choice(["none", "labels", "rowcol", "labelsrow", "embedded", "embedded"])
    pool = list(WORDS if layout == "embedded" else LABELS)
    rng.shuffle(pool)
    if n > 6:
        pool[3:3] = ["p%02d" % i for i in range(12)]
    names = pool[:n]
    perms = [list(range(n)) for _ in range(nm)]
    if layout in ("rowcol", "labelsrow") or layout == "embedded":
        rng.shuffle(perms[0])
        perms = [list(perms[0]) for _ in range(nm)]
        if layout == "embedded":
            for p in perms[1:]:
                if rng.random() < 0.4:
                    rng.shuffle(p)
    mats = []
    p = rng.choice([0.0, 0.2, 0.5, 0.9])
    for _ in range(nm):
        m = [[rng.choice(ZEROS) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                if rng.random() < p:
                    v = rng.choice(VALUES)
                    how = rng.choice(["both", "both", "up", "down"])
                    if how in ("both", "up"):
                        m[i][j] = v
                    if how in ("both", "down"):
                        m[j][i] = v
        mats.append(m)
    return {"f": "ucinet", "n": n, "nm": nm, "layout": layout, "names": names, "perms": perms, "rows": mats,
            "levels": rng.sample(pool[n:] + ["L%d" % i for i in range(nm)], nm) if nm > 1 and rng.random() < 0.5 else None,
            "couplings": rng.choice([["categorical", 1.0], ["categorical", 2.0], ["none"], ["ordinal", 1.0]]),
            "aligned": rng.random() < 0.6, "form": rng.getrandbits(40), "showm": rng.random() < 0.3, "order": rng.getrandbits(10),
            "plain": rng.random() < 0.15}


# -- the text

def render(d, damage=None):
    """The text and the length of its last word; damage: [kind, seed]."""
    hurt = damage[0] if damage else None
    if d["f"] == "edges":
        body = [d["sep"].join(str(x) for x in l) for l in d["links"]]
        s = d["nl"].join(body)
        if d["last"] and body:
            s += d["nl"]
        return s, (len(d["links"][-1][3]) if body else 0)
    from sim.core import RealRandom
    r = RealRandom(d["form"])
    hr = RealRandom(damage[1]) if damage else None
    plain = d["plain"]

    def case(w):
        if plain:
            return w
        k = r.randrange(4)
        if k == 0:
            return w.upper()
        if k == 1:
            return w.title()
        if k == 2:
            return "".join(c.upper() if r.random() < 0.5 else c for c in w)
        return w

    def sp(least=0):
        return " " * least if plain else r.choice([" ", "  ", "\t"] if least else ["", "", " ", "\t", "  "])

    def tail():
        return "" if plain else r.choice(["", "", "", " ", "\t "])

    out = []
    magic = "dl" if hurt != "not-dl" else hr.choice(["xl", "ld", "d", "l", "ucinet dl"])
    size = case("n") + sp() + "=" + sp() + str(d["n"])
    if d["nm"] > 1 or d["showm"]:
        size += sp(1) + case("nm") + sp() + "=" + sp() + str(d["nm"])
    if hurt == "size":
        size = hr.choice([str(d["n"]), "n=", "n=x", "m=%d" % d["n"], "n=%d nm=x" % d["n"], "n=%d nm=" % d["n"], "n=%d nx=%d" % (d["n"], d["nm"]), "n=-%d" % d["n"],
                          "n=%d nm=%d nk=1" % (d["n"], d["nm"]), "n=%d" % (d["n"] + 1) if d["nm"] == 1 else "n=%d nm=%d" % (d["n"], d["nm"] + 1)])
    if r.random() < 0.5:
        out.append(case(magic) + sp(1) + size + tail())
    else:
        out.append(case(magic) + tail())
        out.append(sp() + size + tail())
    parts = []
    n, nm = d["n"], d["nm"]
    names = d["names"]
    rown = [names[i] for i in d["perms"][0]]

    def section(word, labs):
        rows = [sp() + case(word) + tail()]
        line = ""
        for i, l in enumerate(labs):
            line += sp() + l + sp()
            if i < len(labs) - 1:
                if r.random() < 0.5:
                    line += ","
                else:
                    rows.append(line)
                    line = ""
        rows.append(line)
        return rows

    lay = d["layout"]
    more = lambda labs, n=1: list(labs) + ["zz%d" % i for i in range(n)] if hurt == "label-extra" else labs
    if lay in ("labels", "labelsrow"):
        parts.append(section("labels:", more(names)))
    if lay in ("rowcol", "labelsrow"):
        parts.append(section("row labels:", rown))
    if lay in ("rowcol", ):
        parts.append(section("column labels:", more(names)))
    if d["levels"]:
        parts.append(section("level labels:", d["levels"]))
    if lay == "embedded":
        parts.append([sp() + case("labels embedded") + tail()])
    if hurt == "format":
        parts.append(["format=" + hr.choice(["edgelist1", "edgelist", "nodelist1", "lowerhalf", "upperhalf", "fullmatrix diagonal absent", ""])])
    elif hurt == "command":
        parts.append([hr.choice(["diagonal absent", "comment", "nr=2", "label: a", "1"])])
    elif hurt == "redundant":
        if lay == "embedded":
            parts.append([hr.choice(["labels:", "row labels:", "column labels:"]), ",".join(names)])
        else:
            parts += [[w + " labels:", ",".join(names)] for w in ("row", "column")] + [["labels:", ",".join(names)]]
    elif r.random() < 0.6:
        parts.append([sp() + case("format") + sp() + "=" + sp() + case(r.choice(["fullmatrix", "fullmatrix diagonal present"])) + tail()])
    if not plain:
        r.shuffle(parts)
    for p in parts:
        out += p
    if hurt != "no-data":
        out.append(sp() + case("data") + r.choice([":", ":", ""]) + tail())

    def wrapped(fields):
        rows, line = [], []
        wrap = 0 if plain else r.choice([0, 0, 0.2, 0.9])
        for f in fields:
            line.append(f)
            if r.random() < wrap:
                rows.append(line)
                line = []
        if line:
            rows.append(line)
        if not plain and r.random() < 0.1:
            rows.insert(r.randint(0, len(rows)), [])
        return rows

    last = "0"
    data = []
    if lay == "embedded":
        data += wrapped([case(x) for x in names])
    for k in range(nm):
        for i in d["perms"][k]:
            f = list(d["rows"][k][i])
            last = f[-1]
            if lay == "embedded":
                f = [case(names[i])] + f
            data += wrapped(f)
    if hurt in ("value-lost", "value-extra", "line-lost", "line-repeated", "not-a-number"):
        spoil(hurt, hr, d, data, names if lay == "embedded" else [])
    out += [sp() + sp(1).join(x) + tail() for x in data]
    nl = "\n" if plain else r.choice(["\n", "\n", "\r\n"])
    s = nl.join(out)
    if r.random() < 0.7:
        s += nl
    return s, len(last)


def spoil(hurt, hr, d, data, labels):
    """Values or lines of the matrix lost, repeated or replaced."""
    full = [i for i, x in enumerate(data) if x]
    i = hr.choice(full)
    x = data[i]
    if hurt == "value-lost":
        x.pop(hr.randrange(len(x)))
    elif hurt == "value-extra":
        x.insert(hr.randint(0, len(x)), hr.choice(["0", "1", "0.5"]))
    elif hurt == "line-lost":
        data.pop(i)
    elif hurt == "line-repeated":
        data.insert(i, list(x))
    else:
        n, e = d["n"], len(labels)
        cells = [(a, b) for a in full for b in range(len(data[a]))][e:]
        rows = [(k, i) for k in range(d["nm"]) for i in d["perms"][k]]
        w = n + 1 if e else n
        cells = [c for k, c in enumerate(cells) if (k % w) - bool(e) >= 0 and (k % w) - bool(e) != rows[k // w][1]]   # nobody reads the diagonal
        if not cells:
            return
        a, b = hr.choice(cells)
        data[a][b] = hr.choice(["x", "1,5", "--", "1 x".split()[1], "0x1"])


def model(d, upto=None):
    if d["f"] == "edges":
        m = RefMux([(d["couplings"], 1.0)], d["directed"], d["aligned"])
        for l, x, y, w in (d["links"] if upto is None else d["links"][:upto]):
            if x != y or d["self"]:
                m.set(x, y, (l,), float(w))
        return m.flat()
    n, nm = d["n"], d["nm"]
    lab = list(range(n)) if d["layout"] == "none" else d["names"]
    if nm == 1:
        m = RefNet(0, False, True)
        if d["aligned"]:
            for x in lab:
                m.add_node(x)
        layers = [None]
    else:
        m = RefMux([(d["couplings"][0], (d["couplings"] + [1.0])[1])], False, d["aligned"])
        layers = d["levels"] if d["levels"] else list(range(nm))
        for l in layers:
            m.add_layer(l)
        if d["aligned"]:
            for x in lab:
                m.add_node(x)
    for k in range(nm):
        for i in range(n):
            for j in range(n):
                v = float(d["rows"][k][i][j])
                if i != j and v != 0.0:
                    if nm == 1:
                        m.set((lab[i],), (lab[j],), v)
                    else:
                        m.set(lab[i], lab[j], (layers[k],), v)
    return m if nm == 1 else m.flat()


def same(ctx, net, m, what):
    P = type(net).__name__
    ctx.check(P == ("MultilayerNetwork" if m.aspects == 0 else "MultiplexNetwork"), "wrong-class:" + what, P)
    ctx.check(net.aspects == m.aspects and net.directed == m.directed and net.fullyInterconnected == m.aligned, "wrong-kind:" + what, "")
    nodes = set(net)
    ctx.check(nodes == m.nodes and set(map(repr, nodes)) == set(map(repr, m.nodes)), "wrong-nodes:" + what, lambda: "nodes %r, described %r" % (sorted(map(repr, nodes)), sorted(map(repr, m.nodes))))
    for a in range(m.aspects):
        ls = set(net.get_layers(a + 1))
        ctx.check(ls == m.layers[a], "wrong-layers:" + what, lambda: "layers %r, described %r" % (ls, m.layers[a]))
    nls = set(asnl(x, m.aspects) for x in net.iter_node_layers())
    want = set(asnl(x, m.aspects) for x in m.node_layers())
    ctx.check(nls == want, "wrong-node-layers:" + what, lambda: "node-layers %r, described %r" % (nls, want))
    got = sorted(((repr(a), repr(b)) if repr(a) <= repr(b) or m.directed else (repr(b), repr(a))) + (exact(w),) for a, b, w in edge_multiset(ctx, net, m.aspects, m.directed))
    have = set(((repr(a), repr(b)) if repr(a) <= repr(b) or m.directed else (repr(b), repr(a))) + (exact(w),) for (a, b), w in m.e.items())
    ctx.check(got == sorted(have), "wrong-links:" + what, lambda: "links %r, described %r" % (got, sorted(have)))


class Failing(object):
    def __init__(self, lines, at, what):
        self.it = iter(lines)
        self.at = at
        self.what = what
        self.n = 0
        self.hit = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.n == self.at:
            self.hit = True
            if self.what == "os":
                raise OSError(5, "injected")
            if self.what == "value":
                raise ValueError("injected")
            if self.what == "key":
                raise KeyError("injected")
            if self.what == "interrupt":
                from sim.core import SimInterrupt
                raise SimInterrupt("injected")
            raise StopIteration
        self.n += 1
        return next(self.it)


def reader(P, d):
    if d["f"] == "edges":
        return lambda x: P.netio.read_edge_files(x, couplings=d["couplings"], fullyInterconnected=d["aligned"], directed=d["directed"], ignoreSelfLink=not d["self"])
    if not d["levels"] or d["couplings"][0] != "ordinal":
        c = d["couplings"]
        c = c[0] if len(c) == 1 else tuple(c)
    else:
        c = ("categorical", 1.0)
    return lambda x: P.netio.read_ucinet(x, couplings=c, fullyInterconnected=d["aligned"])


def execute(sc, ctx):
    import pymnet as P
    import pymnet.netio  # noqa
    d = dict(sc["d"])
    if d["f"] == "ucinet" and d["levels"] and d["couplings"][0] == "ordinal":
        d["couplings"] = ["categorical", 1.0]
    text, lastlen = render(d)
    m = model(d)
    read = reader(P, d)
    fs.clear()
    path = fs.root() + "/in.dl"
    for a in sc["attempts"]:
        attempt(P, ctx, d, a, text, lastlen, m, read, path)
    # a plain read after whatever happened before
    fs.put(path, text.encode("utf-8"))
    with fs.mounted(fs.Disk({}, ctx)):
        net = ctx.call("read", read, path)
    same(ctx, net, m, "final")
    if sc.get("threads"):
        threads(P, sc, ctx, d, text, m, read)
    ctx.emit(d["f"], len(text), len(m.e))
    ctx.nontrivial = bool(m.e) and bool(sc["attempts"])
    ctx.hit("layout:" + d.get("layout", "edges"))


def attempt(P, ctx, d, a, text, lastlen, m, read, path):
    whole = True
    shown = text
    if a.get("damage"):
        shown = render(d, a["damage"])[0]
        whole = shown == text
        if not whole:
            ctx.fault("damaged_" + a["damage"][0])
    if a["cut"] is not None:
        at = int(a["cut"] * len(text))
        end = len(text.rstrip())
        if end - lastlen < at < end:
            at = end - lastlen
        if at < end:
            whole = False
            ctx.fault("truncated")
        shown = text[:at]
    via = a["via"]
    fs.put(path, shown.encode("utf-8"))
    disk = fs.Disk(a["plan"], ctx)
    lines = io.StringIO(shown, newline=None).readlines() if shown else []
    src = None
    failing = None
    if via == "text":
        src = io.StringIO(shown, newline=None)
    elif via in ("lines", "tuple"):
        src = list(lines)
    elif via == "bare":
        src = [l.rstrip("\n") for l in lines]
    elif via in ("gen", "iter"):
        at, what = None, None
        if a["fail"]:
            at, what = int(a["fail"][0] * len(lines)), a["fail"][1]
            if what == "stop" and at < len(lines):
                whole = False if any(l.strip() for l in lines[at:]) else whole
        failing = Failing(lines, at, what)
        src = failing if via == "iter" else (x for x in failing)
    if via == "tuple":
        src = tuple(src)
    err = net = None
    keep = list(src) if isinstance(src, list) else None
    with fs.mounted(disk):
        try:
            if via == "path":
                net = read(path)
            elif via == "file":
                f = fs.sim_open(path)
                try:
                    net = read(f)
                finally:
                    f.close()
            else:
                net = read(src)
        except Exception as e:
            err = e
        except KeyboardInterrupt as e:
            err = e
    if keep is not None:
        ctx.check(src == keep, "input-changed", "the caller's list was changed")
    broken = bool(disk.hard) or (failing is not None and failing.hit and failing.what != "stop")
    ctx.emit(via, repr(a["cut"]), repr(sorted(disk.n.items())), repr(disk.hard), type(err).__name__)
    if failing is not None and failing.hit:
        ctx.fault("stream_" + failing.what)
    if broken:
        ctx.check(err is not None, "fault-lost", "the reader returned a network although the stream failed (%r)" % (disk.hard or failing.what))
        want = {"os": OSError, "value": ValueError, "key": KeyError, "interrupt": KeyboardInterrupt}[failing.what] if failing is not None and failing.hit else OSError
        e = err
        while e is not None and not isinstance(e, want):
            e = e.__cause__ or e.__context__
        ctx.check(e is not None, "fault-lost", lambda: "the stream failed but the caller sees %s: %s" % (type(err).__name__, err))
        ctx.hit("stream_failed")
    elif whole:
        ctx.check(err is None, "refused", lambda: "%s: %s for a well-formed input (%s): %r" % (type(err).__name__, err, via, shown))
        same(ctx, net, m, via)
        ctx.hit("read:" + via)
    elif d["f"] == "ucinet":
        ctx.check(err is not None, "partial", lambda: "%s was read as a complete network: %r" % ("an input that is damaged (%s)" % a["damage"][0] if a.get("damage") else "an input cut short", shown))
        ctx.hit("damage_refused" if a.get("damage") else "cut_refused")
    else:
        # an edge list has no end mark: what was whole is there, nothing else
        if err is None:
            k = len(shown.splitlines()) if via != "iter" and via != "gen" else len(lines)
            if failing is not None and failing.hit:
                k = failing.at
            ls = lines[:k]
            ok = bool(ls) and len(ls[-1].split()) == 4
            if ls and not ok:
                ctx.fail("partial", "an edge line cut short was accepted: %r" % ls[-1])
            if ls and not ls[-1].endswith("\n") and ls[-1].split()[3] != d["links"][len(ls) - 1][3]:
                return      # cut inside the last number
            same(ctx, net, model(d, len(ls)), "prefix")
        ctx.hit("cut_edges")


def threads(P, sc, ctx, d, text, m, read):
    from sim.core import RealRandom
    t = sc["threads"]
    r = RealRandom(t["seed"])
    lines = io.StringIO(text, newline=None).readlines()
    intr = {0: (r.randint(1, 60), "interrupt")} if t["stop"] else {}
    s = Sched(sc["plan"], interrupts=intr)
    for i in range(t["n"]):
        src = [io.StringIO(text, newline=None), list(lines), (x for x in lines)][r.randrange(3)]
        s.spawn(lambda src=src: read(src))
    for i, (k, v) in enumerate(s.run()):
        if k == "ok":
            same(ctx, v, m, "thread")
            ctx.hit("read:thread")
        else:
            if isinstance(v, Hang):
                raise v
            ctx.check(any(f[0] == i for f in s.fired), "thread-failed", lambda: "%s: %s" % (type(v).__name__, v))
            ctx.fault("interrupt")


def shrink(sc):
    d = sc["d"]
    if sc.get("threads"):
        yield dict((k, v) for k, v in sc.items() if k not in ("threads", "plan"))
        import checks.c13 as me
        for s in shrink_plan(me, sc):
            yield s
    if d["f"] == "edges":
        for i in range(len(d["links"])):
            yield dict(sc, d=dict(d, links=d["links"][:i] + d["links"][i + 1:]))
        return
    if not d["plain"]:
        yield dict(sc, d=dict(d, plain=True))
    if d["nm"] > 2 or (d["nm"] == 2):
        k = d["nm"] - 1
        yield dict(sc, d=dict(d, nm=k, rows=d["rows"][:k], perms=d["perms"][:k], levels=d["levels"][:k] if d["levels"] and k > 1 else None))
    if d["n"] > 1:
        k = d["n"] - 1
        yield dict(sc, d=dict(d, n=k, names=d["names"][:k], perms=[[i for i in p if i < k] for p in d["perms"]], rows=[[row[:k] for row in mm[:k]] for mm in d["rows"]]))
    if d["layout"] != "none":
        for l in ("none", "labels"):
            if l != d["layout"]:
                yield dict(sc, d=dict(d, layout=l, perms=[sorted(p) for p in d["perms"]]))
    for i, a in enumerate(sc["attempts"]):
        for b in (dict(a, via="list" if False else "lines"), dict(a, plan={})):
            if b != a:
                yield dict(sc, attempts=sc["attempts"][:i] + [b] + sc["attempts"][i + 1:])
