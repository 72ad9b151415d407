"""A simulated PyBliss: the graph isomorphism solver as a separate party.

The library talks to PyBliss through a handful of calls whose answers are
free within their contract: any canonical labelling (the same one form for
isomorphic coloured graphs, otherwise arbitrary), any set of generators of the
automorphism group in any order, any isomorphism if there is one.  A seeded
stream takes these choices; `reset(seed, order)` also changes the canonical
form itself, as another version of the solver would.
"""
import _thread
import random as _random
import sys
import types

_RealRandom = _random.Random


class _State(_thread._local):
    """One solver for each thread: a step of another thread does not change it."""
    def __init__(self):
        self.rng, self.order = _RealRandom(0), 0


state = _State()
leaves_cache = {}


def reset(seed, order=0):
    state.rng = _RealRandom("bliss %s" % (seed,))
    state.order = order


def refine(adj, cells):
    """Coarsest equitable refinement of an ordered partition, in an order
    that only depends on the isomorphism class."""
    while True:
        new = []
        where = {}
        for k, c in enumerate(cells):
            for x in c:
                where[x] = k
        for c in cells:
            if len(c) == 1:
                new.append(c)
                continue
            by = {}
            for x in c:
                by.setdefault(tuple(sorted(where[y] for y in adj[x])), []).append(x)
            for k in sorted(by):
                new.append(by[k])
        if len(new) == len(cells):
            return cells
        cells = new


def leaves(verts, colors, edges):
    """All best labellings {vertex: place} of a coloured graph."""
    key = (tuple(sorted((v, colors[v]) for v in verts)), tuple(sorted(tuple(sorted(e)) for e in edges)), state.order % 2)
    if key in leaves_cache:
        return leaves_cache[key]
    adj = dict((v, []) for v in verts)
    for e in edges:
        x, y = tuple(e) if len(e) == 2 else tuple(e) * 2
        adj[x].append(y)
        if x != y:
            adj[y].append(x)
    by = {}
    for v in verts:
        by.setdefault((colors[v], frozenset([v]) in edges), []).append(v)
    best = [None, []]

    def form(lab):
        return sorted(tuple(sorted(lab[x] for x in e)) for e in edges)

    def go(cells):
        cells = refine(adj, cells)
        open_ = [k for k, c in enumerate(cells) if len(c) > 1]
        if not open_:
            lab = dict((c[0], k) for k, c in enumerate(cells))
            f = form(lab)
            if state.order % 2:
                f = f[::-1]
            if best[0] is None or f < best[0]:
                best[0], best[1] = f, []
            if f == best[0]:
                best[1].append(lab)
            return
        k = open_[0] if state.order % 2 == 0 else min(open_, key=lambda k: (len(cells[k]), k))
        for x in cells[k]:
            go(cells[:k] + [[x], [y for y in cells[k] if y != x]] + cells[k + 1:])
    go([by[k] for k in sorted(by)])
    if len(leaves_cache) > 3000:
        leaves_cache.clear()
    leaves_cache[key] = best[1]
    return best[1]


class Graph(object):
    def __init__(self):
        self.color = {}
        self.links = set()

    def add_vertex(self, v, color=0):
        self.color[v] = color

    def del_vertex(self, v):
        del self.color[v]
        self.links = set(e for e in self.links if v not in e)

    def add_edge(self, a, b):
        for x in (a, b):
            if x not in self.color:
                self.color[x] = 0
        self.links.add(frozenset([a, b]))

    def del_edge(self, a, b):
        self.links.discard(frozenset([a, b]))

    def nof_vertices(self):
        return len(self.color)

    def get_vertices(self):
        return list(self.color)

    def _leaves(self):
        return leaves(list(self.color), self.color, self.links)

    def canonical_labeling(self):
        return dict(state.rng.choice(self._leaves())) if self.color else {}

    def relabel(self, lab):
        g = Graph()
        for v, c in self.color.items():
            g.add_vertex(lab[v], c)
        for e in self.links:
            e = tuple(e)
            g.add_edge(lab[e[0]], lab[e[-1]])
        return g

    def __str__(self):
        return "%d:%s" % (state.order, (sorted(self.color.items()), sorted(tuple(sorted(e)) for e in self.links)))

    def _group(self):
        ls = self._leaves()
        first = ls[0]
        out = []
        for l in ls:
            inv = dict((p, v) for v, p in l.items())
            out.append(dict((v, inv[p]) for v, p in first.items()))
        return out

    def find_automorphisms(self, report, arg=None):
        """Reports the elements of a random generating set."""
        if not self.color:
            return
        rng = state.rng
        vs = sorted(self.color)
        ident = tuple(vs)
        group = [tuple(a[v] for v in vs) for a in self._group()]
        todo = [a for a in group if a != ident]
        rng.shuffle(todo)
        place = dict((v, k) for k, v in enumerate(vs))
        have = set([ident])
        gens = []
        for a in todo:
            if a in have:
                continue
            gens.append(a)
            new = list(have) + [a]
            have.add(a)
            while new:
                x = new.pop()
                for g in gens:
                    y = tuple(g[place[v]] for v in x)
                    if y not in have:
                        have.add(y)
                        new.append(y)
        rng.shuffle(gens)
        for a in gens:
            report(dict(zip(vs, a)), arg)

    def get_isomorphism(self, other):
        if sorted(self.color.values()) != sorted(other.color.values()) or len(self.links) != len(other.links):
            return None
        if not self.color:
            return {}
        mine = self._leaves()[0]
        l = state.rng.choice(other._leaves())
        inv = dict((p, v) for v, p in l.items())
        m = dict((v, inv[p]) for v, p in mine.items())
        ok = all(self.color[v] == other.color[m[v]] for v in m) and set(frozenset(m[x] for x in e) for e in self.links) == other.links
        return m if ok else None


def install():
    """Must run before pymnet is imported."""
    mod = types.ModuleType("PyBliss")
    mod.Graph = Graph
    sys.modules["PyBliss"] = mod
