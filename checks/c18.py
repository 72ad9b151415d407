"""C18: a drawing shows exactly the network that was given.

Drawings of one or two networks share random streams, option dictionaries and
the caller's rule functions; rule functions fail or start another drawing in
the middle of one, drawings are interrupted at a drawn line or interleaved at
every line as threads.  What is on the axes (or in the three.js page) is read
back and compared with the network's model."""
import copy
import math
import re

from sim import rand
from sim.core import Hang, RealRandom, SimInterrupt, freeze, net_snapshot
from sim.sched import Sched
from checks import nets
from checks.c05 import flat, model_of
from checks.common import big, shrink_plan

USES_TRACE = True
SHRINK = ("draws",)

COLORS = ["red", "#00ff00", "blue", "k", "0.5", "orange"]
STRINGS = ["t0", "", "label", 0, 7, "a b", "\u00e4"]
LSTYLES = ["normal", "italic", "oblique"]
POOL = {"color": COLORS, "alpha": [0.25, 0.5, 1, 1.0], "lalpha": [0.25, 0.5, 1, 0.0], "label": STRINGS, "lstyle": LSTYLES, "lsize": [5, 8.5, 12],
        "loc": [[0.5, 0.5], [1, 1], [0, 1]], "size": [0.02, 0.05, 0.1, 0.2], "width": [0.5, 1, 3.0], "z": [0, 0.5, 1], "style": ["-", "--", ":", "-."]}
# property: kind of item, pool, what draw() does without any options
PROPS = {
    "layerColor": ("l", "color", (None, "#29b7c1")), "layerAlpha": ("l", "lalpha", (None, 0.75)),
    "layerLabel": ("l", "label", ({"k": "name"}, None)), "layerLabelLoc": ("l", "loc", (None, [1, 1])),
    "layerLabelSize": ("l", "lsize", (None, None)), "layerLabelColor": ("l", "color", (None, "k")),
    "layerLabelStyle": ("l", "lstyle", (None, "normal")), "layerLabelAlpha": ("l", "alpha", (None, 1.0)),
    "nodeLabel": ("n", "label", ({"k": "nodename"}, None)), "nodeLabelSize": ("n", "lsize", (None, None)),
    "nodeLabelColor": ("n", "color", (None, "k")), "nodeLabelStyle": ("n", "lstyle", (None, "normal")),
    "nodeLabelAlpha": ("n", "alpha", (None, 1.0)), "nodeSize": ("n", "size", ({"k": "scaled", "coeff": 0.2}, None)),
    "nodeColor": ("n", "color", (None, "black")), "edgeColor": ("e", "color", (None, "gray")),
    "edgeWidth": ("e", "width", (None, 1.5)), "edgeAlpha": ("e", "alpha", (None, 1)), "edgeZ": ("e", "z", (None, 0)),
    "edgeStyle": ("e", "style", ({"k": "edgetype", "intra": "-", "inter": ":"}, "-")),
}
RULES = {"l": ["name", "name", "order"], "n": ["name", "degree", "layer", "order"], "e": ["name", "edgetype", "edgetype", "edgeweight", "layer", "sourcedestweight"]}


def generate(rng, tier):
    sps = []
    for _ in range(rng.choice([1, 1, 2])):
        sp = nets.gen(rng, rng.choice(["ml1", "ml1", "mux1", "mux1"]), nn=rng.randint(6, 14) if big(rng) else rng.randint(1, 5), nlay=rng.choice([1, 2, 2, 3, 4]), noedge=[0, 0, 0, -1])
        if rng.random() < 0.03:
            sp.update(nn=0, nls=[], edges=[])
        sps.append(sp)
    if len(sps) == 2:
        sps[1]["labels"], sps[1]["salt"] = sps[0]["labels"], sps[0]["salt"]
    mode = rng.choice(["plain", "plain", "plain", "fail", "fail", "nest", "interrupt", "threads"])
    n = rng.choice([1, 2, 2, 3]) if mode != "nest" else 2
    draws = [gen_draw(rng, sps, mode) for _ in range(max(n, 2 if mode == "threads" else 1))]
    if len(draws) > 1 and rng.random() < 0.5:     # the same options again, for another network or layout
        k = rng.randrange(1, len(draws))
        if draws[0]["net"] == draws[k]["net"]:
            draws[k] = dict(draws[0], layout=draws[k]["layout"] if draws[0]["aligned"] is True and draws[k]["aligned"] is True else draws[0]["layout"], same=True)
    sc = {"nets": sps, "draws": draws, "mode": mode, "seed": rng.getrandbits(40), "stream": rng.choice(rand.MODES)}
    if mode in ("fail", "nest"):
        sc["at"] = rng.randint(1, 30)
    if mode == "interrupt":
        sc["at"] = round(rng.random(), 4)
    if mode == "threads":
        sc["plan"] = {"mode": "random", "seed": rng.getrandbits(40), "p": rng.choice([0.01, 0.1, 0.5])}
    return sc


def gen_draw(rng, sps, mode):
    i = rng.randrange(len(sps))
    sp = sps[i]
    d = {"net": i, "backend": rng.choice(["mpl", "mpl", "threejs"]), "aligned": rng.choice([True, True, True, False, None]), "ax": rng.random() < 0.6,
         "gap": rng.choice([None, 1.0, 0.5, 0.3, 2]), "padding": rng.choice([None, 0.05, 0.0, 0.3]), "shape": rng.choice([None, "rectangle", "circle"]),
         "view": rng.choice([None, [10, 45], [-51, 0], [200.5, 179]]), "id": rng.choice(["color", "color", "size", None]), "idway": rng.choice(["dict", "f", "map"]),
         "order": rng.choice([None, None, "dict", "f", "order"]), "oseed": rng.getrandbits(20), "opts": {}}
    if mode == "threads":
        d["ax"] = True
    if d["backend"] == "threejs":
        d["id"] = rng.choice(["size", "size", "size", None])
    d["layout"] = rng.choice(["random", "random", "fr", "circular", "shell", "spring"])
    al = d["aligned"] if d["aligned"] is not None else sp["kind"] == "mux1"
    if not al or sp["directed"] or sp["nn"] == 0 or mode == "threads":
        d["layout"] = rng.choice(["random", "random", "fr"])
    for name, (kind, pool, _) in PROPS.items():
        if rng.random() < ((0.4 if pool == "label" else 0.22) if d["backend"] == "mpl" else 0.05):
            o = {}
            if rng.random() < 0.5:
                o["dict"] = [rng.random() < 0.5, rng.getrandbits(20)]
            if rng.random() < 0.6:
                o["rule"] = gen_rule(rng, name, kind, pool, sp, "dict" in o)
            if rng.random() < 0.5:
                o["default"] = rng.randrange(len(POOL[pool]))
            elif name == "nodeSize" and "rule" in o:
                o["default"] = 1            # nothing else to fall back on
            d["opts"][name] = o
    if rng.random() < 0.35:
        d["coords"] = [[n, rng.choice([rng.random(), rng.uniform(-5, 5), 0.5]), rng.choice([rng.random(), rng.randint(-2, 2)])] for n in range(sp["nn"]) if rng.random() < 0.8]
    if rng.random() < 0.25:
        d["nlcoords"] = [[x, rng.choice([rng.random(), rng.uniform(-5, 5), 0.5]), rng.choice([rng.random(), rng.randint(-2, 2)])] for x in sp["nls"] if rng.random() < 0.6]
    return d


def gen_rule(rng, name, kind, pool, sp, hasdict):
    if rng.random() < (0.35 if pool == "label" else 0.12):
        return {"k": None}                      # an empty rule
    k = rng.choice(RULES[kind])
    if (k == "degree" and sp["directed"]) or (k == "order" and hasdict) or (name == "nodeSize" and k == "name"):
        k = "layer"
    if k == "layer" and kind == "l":
        k = "name"
    r = {"k": k, "way": rng.choice(["f", "map"]), "seed": rng.getrandbits(20)}
    if k == "edgetype":
        for x in ("intra", "inter"):
            if rng.random() < 0.7:
                r[x] = POOL[pool][rng.randrange(len(POOL[pool]))]
        r["way"] = None
    if k == "order":
        r["way"] = None
        r["seq"] = [rng.randrange(len(POOL[pool])) for _ in range(rng.randint(1, 4))]
    if k == "sourcedestweight":
        r["way"] = "f"
    if name == "nodeLabel" and rng.random() < 0.3:
        r = {"k": "nodename", "way": rng.choice([None, "f", "map"]), "seed": rng.getrandbits(20)}
    if name in ("nodeSize", "edgeWidth", "layerLabelSize") and rng.random() < 0.3 and r["way"] is not None:
        r["scaleby"] = rng.choice([0.5, 1.25])
    if name == "nodeSize" and rng.random() < 0.25:
        r = rng.choice([{"k": "scaled", "coeff": None if sp["nn"] > 2 else 0.3}, {"k": "scaled", "coeff": 0.1},
                        {"k": "order", "way": None, "seq": [0, 2], "propscale": 1.5}])
        if hasdict:
            r = {"k": "scaled", "coeff": 0.1}
    if name in ("nodeColor", "edgeColor") and k in ("degree", "edgeweight") and rng.random() < 0.5:
        r = {"k": k, "way": None, "scaleby": 0.125, "colormap": rng.choice(["jet", "viridis"])}
    return r


class Boom(Exception):
    pass


class Draw(object):
    """One drawing: its options, the call and what has to come out."""

    def __init__(self, P, ctx, net, m, sp, d, fuse):
        self.P, self.ctx, self.net, self.sp, self.d, self.fuse = P, ctx, net, sp, d, fuse
        self.m = flat(m)
        node, layer = nets.labelled(sp)
        self.layers = [layer(i) for i in range(sp["nlay"][0])]
        self.nls = sorted(self.m.node_layers(), key=repr)
        self.links = sorted(self.m.e, key=repr)
        self.kw = {}
        self.want = {}       # property -> function of the item
        d = self.d
        for k, a in (("gap", "layergap"), ("padding", "layerPadding"), ("shape", "layershape")):
            if d[k] is not None:
                self.kw[a] = d[k]
        if d["view"] is not None:
            self.kw["azim"], self.kw["elev"] = d["view"]
        if d["aligned"] is not True:
            self.kw["alignedNodes"] = d["aligned"]
        self.kw["layout"] = d["layout"]
        if d["backend"] != "mpl":
            self.kw["backend"] = d["backend"]
        self.aligned = d["aligned"] if d["aligned"] is not None else sp["kind"] == "mux1"
        self.coords = dict((node(n), (x, y)) for n, x, y in d.get("coords", []))
        self.nlcoords = dict((nets.tup(t, node, layer), (x, y)) for t, x, y in d.get("nlcoords", []))
        if "coords" in d:
            self.kw["nodeCoords"] = self.coords
        if "nlcoords" in d:
            self.kw["nodelayerCoords"] = self.nlcoords
        self.set_order()
        for name in PROPS:
            self.set_prop(name, d["opts"].get(name))
        self.set_id()
        self.keep = dict((k, self.frozen(v)) for k, v in self.kw.items())

    def frozen(self, v):
        return [(repr(k), type(k), v[k] if not isinstance(v[k], list) else list(v[k])) for k in v] if isinstance(v, dict) else copy.copy(v)

    def untouched(self):
        for k, v in self.kw.items():
            self.ctx.check(self.frozen(v) == self.keep[k], "option-changed", lambda: "%s is now %r, was %r" % (k, v, self.keep[k]))

    def items(self, kind):
        return {"l": self.layers, "n": self.nls, "e": self.links}[kind]

    def key(self, kind, x):
        """The same for both directions of an undirected link."""
        if kind == "e" and not self.m.directed:
            return repr(tuple(sorted(map(repr, x))))
        return repr(x)

    def pick(self, seed, pool, kind, x):
        p = POOL[pool]
        return p[RealRandom("%s %s" % (seed, self.key(kind, x))).randrange(len(p))]

    def func(self, f):
        def g(x):
            self.fuse()
            return f(x)
        return g

    def set_order(self):
        """Which layer is on top: rank of every layer."""
        r = RealRandom(self.d["oseed"])
        ls = list(self.layers)
        if self.d["order"] is None:
            rank = dict((l, i) for i, l in enumerate(sorted(ls)))
        else:
            r.shuffle(ls)
            rank = dict((l, i) for i, l in enumerate(ls))
            vals = sorted(r.sample(range(-50, 50), len(ls)))
            if self.d["order"] == "dict":
                self.kw["layerOrderDict"] = dict((l, vals[i]) for l, i in rank.items())
            elif self.d["order"] == "f":
                self.kw["layerOrderRule"] = {"rule": "name", "f": self.func(lambda l: vals[rank[l]])}
            else:
                self.kw["layerOrderRule"] = {"rule": "order", "sequence": vals}
                rank = dict((l, i) for i, l in enumerate(self.net.iter_layers()))
        self.rank = rank
        self.gap = self.d["gap"] if self.d["gap"] is not None else 1.0
        self.z = dict((l, (len(rank) - 1 - i) * self.gap) for l, i in rank.items())

    def base(self, k, kind, x):
        """The value of a rule before any modifier."""
        if k == "nodename":
            return x[0]
        if k == "degree":
            return len(self.m.out(x))
        if k == "layer" and kind == "n":
            return x[1]
        if k == "layer":
            return x[0][1] if x[0][1] == x[1][1] else "interlayer"
        if k == "edgeweight":
            return self.m.e[x]
        if k == "sourcedestweight":
            return (x[0], x[1], self.m.e[x])
        return x

    def set_prop(self, name, o):
        kind, pool, (drule, ddefault) = PROPS[name]
        o = o or {}
        d = None
        if "dict" in o:
            d = {}
            for x in self.items(kind):
                if kind == "e" and not self.m.directed and (x[1], x[0]) in d:
                    continue
                if o["dict"][0] or RealRandom("%s has %s" % (o["dict"][1], self.key(kind, x))).random() < 0.5:
                    d[x] = self.value(self.pick(o["dict"][1], pool, kind, x))
            self.kw[name + "Dict"] = d
        default = self.value(ddefault)
        if "default" in o:
            default = self.kw["default" + name[0].upper() + name[1:]] = self.value(POOL[pool][o["default"]])
        rule = drule
        if "rule" in o:
            rule = o["rule"]
            self.kw[name + "Rule"] = self.rule_of(name, kind, pool, rule)
        if rule is not None and rule["k"] is None:
            rule = None

        def want(x):
            if d is not None:
                if x in d:
                    return d[x]
                if kind == "e" and not self.m.directed and (x[1], x[0]) in d:
                    return d[(x[1], x[0])]
            if rule is not None:
                v = self.ruled(name, kind, pool, rule, x)
                if v is not None:
                    return v
            return default
        self.want[name] = want

    def value(self, v):
        return tuple(v) if isinstance(v, list) else v

    def rule_of(self, name, kind, pool, r):
        k = r["k"]
        if k is None:
            return {}
        out = {"rule": k}
        if k == "edgetype":
            for x in ("intra", "inter"):
                if x in r:
                    out[x] = r[x]
        elif k == "order":
            out["sequence"] = [self.value(POOL[pool][i]) for i in r["seq"]]
        elif k == "scaled":
            if r["coeff"] is not None:
                out["scalecoeff"] = r["coeff"]
        if r.get("way") == "f":
            out["f"] = self.func(lambda v: self.value(self.pick(r["seed"], pool, "v", self.norm(k, kind, v))))
        elif r.get("way") == "map":
            out["mapping"] = True
            for x in self.items(kind):
                v = self.base(k, kind, x)
                out[v] = self.value(self.pick(r["seed"], pool, "v", self.norm(k, kind, v)))
        for x in ("scaleby", "propscale", "colormap"):
            if x in r:
                out[x] = r[x]
        return out

    def norm(self, k, kind, v):
        """Same for both directions of a link."""
        if k == "name" and kind == "e":
            return self.key("e", v)
        if k == "sourcedestweight":
            return (self.key("e", v[:2]), float(v[2]))
        return float(v) if k == "edgeweight" else v

    def ruled(self, name, kind, pool, r, x):
        k = r["k"]
        if k == "edgetype":
            return r.get("intra" if x[0][1] == x[1][1] else "inter")
        if k == "order":
            seq = self.net.iter_node_layers() if kind == "n" else sorted(self.layers, key=lambda l: self.rank[l])
            v = self.value(POOL[pool][r["seq"][list(seq).index(x) % len(r["seq"])]])
            return v * r["propscale"] / math.sqrt(self.sp["nn"]) if "propscale" in r else v
        if k == "scaled":
            return (r["coeff"] if r["coeff"] is not None else 1.0) / math.sqrt(self.sp["nn"])
        v = self.base(k, kind, x)
        if r.get("way"):
            v = self.value(self.pick(r["seed"], pool, "v", self.norm(k, kind, v)))
        if "scaleby" in r:
            v = v * r["scaleby"]
        if "colormap" in r:
            import matplotlib
            v = matplotlib.colormaps[r["colormap"]](v)
        return v

    def set_id(self):
        """One property tells the markers apart."""
        self.ident = self.d["id"]
        if self.ident == "color":
            u = dict((nl, (i / 64.0, 0.25, 1 - i / 64.0)) for i, nl in enumerate(self.nls))
            for a in ("nodeColorDict", "nodeColorRule", "defaultNodeColor"):
                self.kw.pop(a, None)
            if self.d["idway"] == "dict":
                self.kw["nodeColorDict"] = u
            elif self.d["idway"] == "f":
                self.kw["nodeColorRule"] = {"rule": "name", "f": self.func(lambda nl: u[nl])}
            else:
                self.kw["nodeColorRule"] = dict(u, rule="name", mapping=True)
            self.want["nodeColor"] = lambda nl: u[nl]
        elif self.ident == "size":
            u = dict((nl, 0.05 + i / 256.0) for i, nl in enumerate(self.nls))
            for a in ("nodeSizeRule", "defaultNodeSize"):
                self.kw.pop(a, None)
            self.kw["nodeSizeDict"] = u
            self.want["nodeSize"] = lambda nl: u[nl]

    # -- the call
    def do(self):
        kw = dict(self.kw)
        self.axes = None
        if self.d["backend"] == "mpl" and self.d["ax"]:
            from matplotlib.figure import Figure
            self.axes = Figure().add_subplot(projection="3d")
            kw["ax"] = self.axes
        return self.P.draw(self.net, **kw)

    def judge(self, r):
        ctx = self.ctx
        if self.d["backend"] == "mpl":
            ctx.check(len(r.axes) == 1 and (self.axes is None or r.axes[0] is self.axes), "axes", lambda: "%d axes" % len(r.axes))
            self.judge_mpl(r.axes[0])
        else:
            self.judge_threejs(r)
        self.untouched()
        ctx.hit("judged:" + self.d["backend"])
        ctx.hit("layout:" + self.d["layout"])

    def level(self, z):
        """Layer at a height."""
        for l, v in self.z.items():
            if abs(v - z) < 0.1 * self.gap:
                return l
        self.ctx.fail("height", "something is at height %r, layers are at %r" % (z, self.z))

    def judge_mpl(self, ax):
        from matplotlib.colors import to_rgb
        ctx = self.ctx
        surfaces, markers = [], []
        for p in ax.patches:
            pts = [[float(v) for v in t] for t in p._segment3d]
            xs, ys, zs = zip(*pts)
            for v in xs + ys + zs:
                ctx.check(math.isfinite(v), "not-finite", lambda: repr(pts))
            w, h = max(xs) - min(xs), max(ys) - min(ys)
            g = {"x": (max(xs) + min(xs)) / 2, "y": (max(ys) + min(ys)) / 2, "z": zs[0], "size": w, "color": tuple(round(v, 4) for v in to_rgb(p.get_facecolor())),
                 "alpha": p.get_alpha(), "n": len(pts)}
            ctx.check(abs(w - h) < 1e-6 and max(zs) - min(zs) < 1e-9, "shape", lambda: repr(pts))
            (surfaces if abs(w - 1) < 1e-6 else markers).append(g)
        # layers
        want = sorted((round(self.z[l], 6), col(self.want["layerColor"](l)), float(self.want["layerAlpha"](l))) for l in self.layers if self.want["layerAlpha"](l) != 0)
        got = sorted((round(s["z"], 6), s["color"], float(s["alpha"])) for s in surfaces)
        ctx.check(got == want, "surfaces", lambda: "%r, expected %r" % (got, want))
        for s in surfaces:
            ctx.check(abs(s["x"] - 0.5) < 1e-9 and abs(s["y"] - 0.5) < 1e-9, "surface-place", lambda: repr(s))
            ctx.check((s["n"] > 6) == (self.d["shape"] == "circle"), "surface-shape", lambda: repr(s))
        # markers
        wantm = sorted((round(self.z[nl[1]], 6), col(self.want["nodeColor"](nl)), coarse(self.want["nodeSize"](nl))) for nl in self.nls)
        gotm = sorted((round(g["z"], 6), g["color"], coarse(g["size"])) for g in markers)
        ctx.check(gotm == wantm, "markers", lambda: "%r, expected %r" % (gotm, wantm))
        for g in markers:
            ctx.check(-1e-9 <= g["x"] <= 1 + 1e-9 and -1e-9 <= g["y"] <= 1 + 1e-9, "outside-layer", lambda: repr(g))
        if markers and len(set(x[2] for x in wantm)) == 1:
            for a in ("x", "y"):
                lo, hi = min(g[a] for g in markers), max(g[a] for g in markers)
                ctx.check(abs(lo + hi - 1) < 1e-6, "padding", lambda: "%s from %r to %r" % (a, lo, hi))
        # labels
        wantt = []
        for l in self.layers:
            if self.want["layerAlpha"](l) != 0 and self.want["layerLabel"](l) is not None:
                wantt.append(self.text("layer", l, l))
        for nl in self.nls:
            if self.want["nodeLabel"](nl) is not None:
                wantt.append(self.text("node", nl, nl[1]))
        gott = []
        for t in ax.texts:
            z = float(t.get_position_3d()[2])
            gott.append((t.get_text(), repr(self.level(z)), col(t.get_color()), t.get_fontstyle(), float(t.get_alpha()), float(t.get_fontsize())))
        ctx.check(sorted(gott) == sorted(wantt), "labels", lambda: "%r, expected %r" % (sorted(gott), sorted(wantt)))
        # lines
        lines = []
        for ln in ax.lines:
            x, y, z = [list(map(float, v)) for v in ln.get_data_3d()]
            ctx.check(len(x) == len(y) == len(z) == 2, "line", lambda: repr((x, y, z)))
            lines.append(((x[0], y[0], z[0]), (x[1], y[1], z[1]), (col(ln.get_color()), round(float(ln.get_linewidth()), 6), ln.get_linestyle(), float(ln.get_alpha())), float(ln.zorder)))
        if self.d["view"] is not None:
            ctx.check((ax.azim, ax.elev) == tuple(self.d["view"]), "view", lambda: "%r" % ((ax.azim, ax.elev),))
        if self.ident is None:
            ctx.check(bool(lines) == bool(self.links), "lines", lambda: "%d lines for %d links" % (len(lines), len(self.links)))
            self.count_lines([(a[2], b[2], p) for a, b, p, _ in lines])
            return
        place = {}
        for nl in self.nls:
            for g in markers:
                if (g["color"] == col(self.want["nodeColor"](nl))) if self.ident == "color" else abs(g["size"] - self.want["nodeSize"](nl)) < 1e-6:
                    place[nl] = (g["x"], g["y"], g["z"])
        self.judge_places(place)
        wantl, zs = set(), {}
        for e in self.links:
            p = (col(self.want["edgeColor"](e)), round(self.want["edgeWidth"](e), 6), self.want["edgeStyle"](e), float(self.want["edgeAlpha"](e)))
            for k in pieces(place[e[0]], place[e[1]], self.gap):
                wantl.add((k, p))
                zs.setdefault((k, p), set()).add(self.want["edgeZ"](e))
        gotl = set((seg(a, b), p) for a, b, p, _ in lines)
        ctx.check(gotl == wantl, "lines", lambda: "missing %r, not in the network %r" % (sorted(wantl - gotl, key=repr)[:3], sorted(gotl - wantl, key=repr)[:3]))
        above = sorted((list(zs[(seg(a, b), p)])[0], zo - (a[2] + b[2]) / 2) for a, b, p, zo in lines if len(zs[(seg(a, b), p)]) == 1)
        for (z1, o1), (z2, o2) in zip(above, above[1:]):
            ctx.check(abs(o1 - o2) < 1e-9 if z1 == z2 else o1 < o2, "line-order", lambda: repr(above))

    def count_lines(self, lines):
        """Links by height and style, when the markers look the same."""
        want = set()
        for e in self.links:
            p = (col(self.want["edgeColor"](e)), round(self.want["edgeWidth"](e), 6), self.want["edgeStyle"](e), float(self.want["edgeAlpha"](e)))
            for k in pieces((0, 0, self.z[e[0][1]]), (0, 0, self.z[e[1][1]]), self.gap):
                want.add((tuple(q[2] for q in k), p))
        got = set((tuple(sorted((quant(a), quant(b)))), p) for a, b, p in lines)
        self.ctx.check(got == want, "lines", lambda: "missing %r, not in the network %r" % (sorted(want - got, key=repr)[:3], sorted(got - want, key=repr)[:3]))

    def text(self, what, x, layer):
        from matplotlib import rcParams
        w = self.want
        size = w[what + "LabelSize"](x)
        return (str(w[what + "Label"](x)), repr(layer), col(w[what + "LabelColor"](x)), w[what + "LabelStyle"](x), float(w[what + "LabelAlpha"](x)), float(size if size is not None else rcParams["font.size"]))

    def judge_places(self, place):
        ctx = self.ctx
        given = {}
        for nl in self.nls:
            if nl in self.nlcoords:
                given[nl] = self.nlcoords[nl]
            elif self.aligned and nl[0] in self.coords:
                given[nl] = self.coords[nl[0]]
            ctx.check(abs(place[nl][2] - place[self.nls[0]][2] - (self.z[nl[1]] - self.z[self.nls[0][1]]) * self.scale()) < 1e-6, "marker-layer", lambda: "%r at %r" % (nl, place))
        if self.aligned:
            at = {}
            for nl in self.nls:
                if nl not in self.nlcoords:
                    q = at.setdefault(nl[0], place[nl])
                    ctx.check(abs(q[0] - place[nl][0]) + abs(q[1] - place[nl][1]) < 1e-6, "not-aligned", lambda: "%r at %r" % (nl[0], place))
        for a in (0, 1):
            xs = sorted((float(given[nl][a]), place[nl][a]) for nl in given)
            if len(xs) < 2:
                continue
            dx, dp = xs[-1][0] - xs[0][0], xs[-1][1] - xs[0][1]
            size = max(abs(p) for x, p in xs) or 1.0
            for x, p in xs:
                f = (x - xs[0][0]) / dx if dx > 0 else 0.0
                ctx.check((dp > 0 if dx > 1e-9 else True) and abs(p - xs[0][1] - f * dp) < 1e-6 * size, "coordinates", lambda: "given %r, drawn at %r" % (given, place))
            ctx.hit("given_coordinates")

    def scale(self):
        return 1.0 if self.d["backend"] == "mpl" else self.zscale

    def judge_threejs(self, s):
        ctx = self.ctx
        num = lambda t: [float(v) for v in t.split(",")]
        nodes = [num(x) for x in re.findall(r"getNode\(([-+0-9.einaf, ]+)\)\s*;", s)]
        links = [num(x) for x in re.findall(r"getLink\(([-+0-9.einaf, ]+)\)\s*;", s)]
        ctx.check(all(math.isfinite(v) for t in nodes + links for v in t), "not-finite", lambda: repr(nodes))
        ctx.check(len(nodes) == len(self.nls), "markers", lambda: "%d markers for %d node-layers" % (len(nodes), len(self.nls)))
        ctx.check("@nodes" not in s and "@edges" not in s and "@layers" not in s and len(s) > 500, "page", lambda: s[-300:])
        ctx.check(bool(links) == bool(self.links), "lines", lambda: "%d lines for %d links" % (len(links), len(self.links)))
        if self.ident != "size" or not self.nls:
            return
        place = dict(zip(sorted(self.nls, key=self.want["nodeSize"]), [t[:3] for t in sorted(nodes, key=lambda t: t[3])]))
        lo, hi = min(self.z[nl[1]] for nl in self.nls), max(self.z[nl[1]] for nl in self.nls)
        zs = [p[2] for p in place.values()]
        self.zscale = (max(zs) - min(zs)) / (hi - lo) if hi > lo else 1.0
        ctx.check(hi == lo or self.zscale > 0, "marker-layer", lambda: repr(place))
        self.judge_places(place)
        want = set(seg(place[a], place[b]) for a, b in self.links)
        got = set(seg(t[:3], t[3:6]) for t in links)
        ctx.check(got == want, "lines", lambda: "missing %r, not in the network %r" % (sorted(want - got)[:3], sorted(got - want)[:3]))


def col(c):
    from matplotlib.colors import to_rgb
    return tuple(round(float(v), 4) for v in to_rgb(c))


def quant(v):
    return int(math.floor(v * 1e6 + 0.318281828))


def coarse(v):
    return int(math.floor(v * 1e5 + 0.318281828)) / 1e5


def seg(a, b):
    return tuple(sorted((tuple(map(quant, a)), tuple(map(quant, b)))))


def pieces(a, b, gap):
    """A line between layers that are not neighbours comes in one piece per
    gap, so that it can pass behind the surfaces."""
    n = max(1, int(round(abs(a[2] - b[2]) / float(gap))))
    pts = [tuple(a[i] + (b[i] - a[i]) * k / float(n) for i in (0, 1, 2)) for k in range(n + 1)]
    return [seg(p, q) for p, q in zip(pts, pts[1:])]


def execute(sc, ctx):
    import pymnet as P
    import pymnet.visuals  # noqa
    import matplotlib
    import matplotlib.pyplot as plt
    rc = dict(matplotlib.rcParams)
    built = []
    for sp in sc["nets"]:
        net = nets.build(P, sp)
        built.append((net, model_of(sp, *nets.labelled(sp)), sp, freeze(net)))
    if len(sc["nets"]) > 1 or sc["nets"][0]["labels"] in ("sim", "few", "collide"):
        nets.labelled(sc["nets"][0])
    rand.reset(sc["seed"], sc["stream"], 100000)
    state = {"calls": 0, "at": None, "what": None}

    def fuse():
        state["calls"] += 1
        if state["at"] == state["calls"]:
            state["what"]()

    draws = []
    for d in sc["draws"]:
        if d.get("same") and draws:
            x = copy.copy(draws[0])
            x.d = d
            x.kw = dict(draws[0].kw, layout=d["layout"])
            x.keep = dict((k, x.frozen(v)) for k, v in x.kw.items())
            draws.append(x)
        else:
            net, m, sp, _ = built[d["net"]]
            draws.append(Draw(P, ctx, net, m, sp, d, fuse))
    try:
        run(sc, ctx, draws, state)
        for net, m, sp, snap in built:
            ctx.check(net_snapshot(net) == snap, "network-changed", lambda: "%r, was %r" % (net_snapshot(net), snap))
        now = dict(matplotlib.rcParams)
        ctx.check(now == rc, "settings-changed", lambda: repr([k for k in now if now[k] != rc.get(k)][:5]))
    finally:
        plt.close("all")
    ctx.steps += len(draws)
    ctx.nontrivial = any(d.links for d in draws)


def run(sc, ctx, draws, state):
    mode = sc["mode"]
    if mode == "threads":
        s = Sched(sc["plan"], max_yields=3000000)
        for d in draws:
            s.spawn(d.do)
        for d, (k, v) in zip(draws, s.run()):
            if k == "exc":
                if isinstance(v, Hang):
                    raise v
                ctx.fail("exception:draw:" + type(v).__name__, str(v))
            d.judge(v)
        ctx.emit("threads", len(draws), s.yields)
        return
    if mode == "interrupt":
        d = draws[0]
        s = Sched({"mode": "explicit", "switches": []}, interrupts={0: (1 + int(sc["at"] ** 3 * 3000), "interrupt")})
        s.spawn(d.do)
        k, v = s.run()[0]
        if s.fired:
            ctx.fault("interrupt")
            ctx.check(k == "exc" and isinstance(v, (SimInterrupt, KeyboardInterrupt)), "interrupt-swallowed", repr(v))
        d.untouched()
    if mode == "fail":
        boom = Boom("rule function failed")

        def what():
            ctx.fault("rule_function_fails")
            raise boom
        state.update(calls=0, at=sc["at"], what=what)
        try:
            r = ctx_call(ctx, draws[0].do, Boom)
            ctx.check(state["calls"] < sc["at"], "failure-swallowed", "the rule function failed and the drawing went on")
            draws[0].judge(r)
        except Boom as e:
            ctx.check(e is boom, "failure-swallowed", repr(e))
        draws[0].untouched()
        state["at"] = None
    for n, d in enumerate(draws):
        rand.reset(sc["seed"] + n, sc["stream"], 100000)
        if mode == "nest" and n == 0 and len(draws) > 1:
            def what():
                ctx.fault("drawing_within_drawing")
                draws[1].judge(ctx.call("draw", draws[1].do))
            state.update(calls=0, at=sc["at"], what=what)
        r = ctx.call("draw", d.do)
        state["at"] = None
        d.judge(r)
        ctx.emit("draw", d.d["backend"], d.d["layout"], repr(sorted(d.kw, key=str)), len(d.links))


def ctx_call(ctx, fn, *ok):
    try:
        return fn()
    except ok:
        raise
    except Exception as e:
        return ctx.fail("exception:draw:" + type(e).__name__, str(e))


def shrink(sc):
    if sc["mode"] == "threads":
        import checks.c18 as me
        for s in shrink_plan(me, sc):
            yield s
    else:
        if sc["mode"] != "plain":
            yield dict(sc, mode="plain")
    if sc["stream"] != "mt":
        yield dict(sc, stream="mt")
    for k, sp in enumerate(sc["nets"]):
        for s in nets.shrink(sp):
            ds = [dict(d, nlcoords=[x for x in d["nlcoords"] if x[0] in s["nls"]]) if d["net"] == k and "nlcoords" in d else d for d in sc["draws"]]
            yield dict(sc, nets=sc["nets"][:k] + [s] + sc["nets"][k + 1:], draws=ds)
    for i, d in enumerate(sc["draws"]):
        put = lambda **k: dict(sc, draws=sc["draws"][:i] + [dict(d, **k)] + sc["draws"][i + 1:])
        for name in d["opts"]:
            yield put(opts=dict((k, v) for k, v in d["opts"].items() if k != name))
            for x in d["opts"][name]:
                yield put(opts=dict(d["opts"], **{name: dict((k, v) for k, v in d["opts"][name].items() if k != x)}))
        for k, v in (("gap", None), ("padding", None), ("shape", None), ("view", None), ("order", None), ("aligned", True)):
            if d[k] != v:
                yield put(**{k: v})
        if d["layout"] != "random":
            yield put(layout="random")
        for k in ("coords", "nlcoords"):
            if k in d:
                yield dict(sc, draws=sc["draws"][:i] + [dict((a, b) for a, b in d.items() if a != k)] + sc["draws"][i + 1:])
