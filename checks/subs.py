"""Subgraph sampling as data, and an independent enumeration of what it should
find."""
import itertools

from checks import nets


def gen_params(rng, sp):
    """Parameters taken from a subgraph of the network, so that hits are
    likely; node and layer numbers only."""
    asp_l = sp["nlay"][0]
    nls = set(tuple(x) for x in sp["nls"])
    form = rng.choice(["strict", "strict", "none", "weak", "weak_none", "int", "nnodes", "nnodes", "nnodes", "custom", "custom", "custom_all"])
    for _ in range(20):
        kl = rng.randint(1, min(3, asp_l))
        ls = rng.sample(range(asp_l), kl)
        ns = rng.sample(range(sp["nn"]), rng.randint(1, min(4 if kl < 3 else 3, sp["nn"])))
        on = [[n for n in ns if (n, l) in nls] for l in ls]
        if all(on) and not (form == "int" and kl == 1):
            break
    else:
        form, kl, ns = "nnodes", 1, [0]
    par = {"form": form}
    if form in ("nnodes", "custom", "custom_all"):
        par.update(nnodes=len(ns), nlayers=kl)
        if form == "custom":
            par["pred"] = rng.choice(["even", "sum", "edges", "edges"])
        return par
    sizes = [len(o) for o in on]
    inter = []
    for k in range(2, kl + 1):
        for c in itertools.combinations(range(kl), k):
            inter.append(len(set(on[c[0]]).intersection(*[on[i] for i in c[1:]])))
    union = len(set(n for o in on for n in o))
    if form == "strict" and rng.random() < 0.2 and inter:
        k = rng.randrange(len(inter))
        inter[k] = max(0, inter[k] + rng.choice([-1, 1]))
        union = incl_excl(sizes, inter)
    if form in ("none", "weak_none"):
        if not inter:
            par["form"] = form = "strict" if form == "none" else "weak"
        for i in range(len(inter)):
            if rng.random() < 0.6:
                inter[i] = None
        if inter and None not in inter:
            inter[rng.randrange(len(inter))] = None
    if form in ("weak", "weak_none"):
        inter = [x if x is None else x + rng.randint(0, 1) for x in inter]
    par["sizes"] = sizes
    par["inter"] = inter[-1] if form == "int" else inter
    if form != "strict":
        par["nnodes"] = union
    elif union < 1:
        return {"form": "nnodes", "nnodes": len(ns), "nlayers": kl}
    if form in ("weak", "weak_none") or (form == "int" and rng.random() < 0.3):
        par["weak"] = True
    return par


def incl_excl(sizes, inter):
    n, i = sum(sizes), 0
    for k in range(2, len(sizes) + 1):
        for _ in itertools.combinations(sizes, k):
            n += inter[i] if k % 2 else -inter[i]
            i += 1
    return n


def kwargs(par):
    k = {}
    if "sizes" in par:
        k["sizes"] = list(par["sizes"])
        k["intersections"] = list(par["inter"]) if isinstance(par["inter"], list) else par["inter"]
    for a in ("nnodes", "nlayers"):
        if a in par:
            k[a] = par[a]
    if par.get("weak"):
        k["intersection_type"] = "less_or_equal"
    return k


def depth(par):
    if "sizes" in par:
        nn = par["nnodes"] if "nnodes" in par else incl_excl(par["sizes"], par["inter"])
        return nn - 1 + len(par["sizes"]) - 1 + 1
    return par["nnodes"] - 1 + par["nlayers"] - 1 + 1


class Truth(object):
    """Graph of node-layers with every link, from the spec alone."""

    def __init__(self, sp, flat, node, layer):
        self.nodes = [node(i) for i in range(sp["nn"])]
        self.layers = [layer(i, 1) for i in range(sp["nlay"][0])]
        self.num = dict((repr(n), i) for i, n in enumerate(self.nodes))
        self.nls = set(flat.node_layers())
        self.nodes = sorted(set(self.nodes), key=repr)
        self.adj = dict((x, set()) for x in self.nls)
        for (a, b), w in flat.e.items():
            self.adj[a].add(b)
            self.adj[b].add(a)

    def induced(self, ns, ls):
        return [x for x in itertools.product(ns, ls) if x in self.nls]

    def links(self, on):
        s = set(on)
        return sum(len(self.adj[x] & s) for x in on) // 2

    def connected(self, ns, ls):
        """Connected, with no empty node and no empty layer."""
        on = self.induced(ns, ls)
        if not on or set(x[0] for x in on) != set(ns) or set(x[1] for x in on) != set(ls):
            return False
        s, seen, todo = set(on), {on[0]}, [on[0]]
        while todo:
            for y in self.adj[todo.pop()] & s:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return len(seen) == len(s)

    def pred(self, name, ns, ls):
        if name == "even":
            return len(self.induced(ns, ls)) % 2 == 0
        if name == "edges":
            on = self.induced(ns, ls)
            return self.links(on) >= len(on)
        return sum(self.num[repr(n)] for n in ns) % 2 == 0

    def fits(self, par, ns, ls):
        sizes, inter = par["sizes"], par["inter"]
        k = len(ls)
        on = dict((l, set(n for n in ns if (n, l) in self.nls)) for l in ls)
        if not isinstance(inter, list):
            inter = [None] * (2 ** k - k - 2) + [inter]
        for perm in itertools.permutations(ls):
            if [len(on[l]) for l in perm] != sizes:
                continue
            i, ok = 0, True
            for r in range(2, k + 1):
                for c in itertools.combinations(perm, r):
                    got = len(set.intersection(*[on[l] for l in c]))
                    want = inter[i]
                    i += 1
                    if want is not None and (got > want if par.get("weak") else got != want):
                        ok = False
            if ok:
                return True
        return False

    def answer(self, par):
        if "sizes" in par:
            nl = len(par["sizes"])
            nn = par["nnodes"] if "nnodes" in par else incl_excl(par["sizes"], par["inter"])
        else:
            nn, nl = par["nnodes"], par["nlayers"]
        out = set()
        if nn < 1:
            return out
        for ns in itertools.combinations(self.nodes, nn):
            for ls in itertools.combinations(self.layers, nl):
                if not self.connected(ns, ls):
                    continue
                if "sizes" in par and not self.fits(par, ns, ls):
                    continue
                if par["form"] == "custom" and not self.pred(par["pred"], ns, ls):
                    continue
                out.add((frozenset(ns), frozenset(ls)))
        return out
