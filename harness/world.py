"""The boundary between the library and the specification.

The specification talks about element numbers; this module gives each number
a Python object (a label, an edge, ...), converts arguments and results both
ways, and registers universes.  An object that the library returns and that
is not exactly the one registered becomes element 0, which matches nothing.
"""
import random

from graphillion import (DiGraphSet, EdgeVertexSetSet, GraphSet, Universe, VertexSetSet,
                         setset)

ONE = 4                       # weights are recorded in quarters


class Lab(object):
    """A user-defined vertex type: hashable and comparable, default repr."""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(('Lab', self.k))

    def __eq__(self, other):
        return isinstance(other, Lab) and self.k == other.k

    def __lt__(self, other):
        return self.k < other.k

    def __gt__(self, other):
        return self.k > other.k

    def __le__(self, other):
        return self.k <= other.k

    def __ge__(self, other):
        return self.k >= other.k


class Gr(object):
    """A graph type of the user's, exchanged by way of `converters`."""

    def __init__(self, edges):
        self.edges = list(edges)


def to_edges(g):
    if not isinstance(g, Gr):
        raise TypeError(g)
    return list(g.edges)


def to_edges_data(g):
    """As networkx.to_edgelist: every edge comes with its attributes."""
    return [e if len(e) == 3 and isinstance(e[2], dict) else e[:2] + ({'weight': e[2]} if len(e) > 2 else {},)
            for e in to_edges(g)]


PLAIN = {k: dict(CLS.converters) for k, CLS in (('graph', GraphSet), ('di', DiGraphSet))}


LABEL_KINDS = ['int', 'perm', 'neg', 'big', 'str', 'odd', 'tuple', 'float',
               'mixnum', 'lab', 'long']


WIDE_KINDS = ['int', 'perm', 'neg', 'str', 'tuple', 'lab', 'mixnum', 'float', 'long']


def make_labels(rng, kind, n):
    """n + 2 labels: 1..n in the universe, the last two never in it."""
    k = n + 2
    if k > 12:
        if kind == 'perm':
            return rng.sample(range(0, 4 * k), k)
        if kind == 'neg':
            return rng.sample(range(-k, k), k)
        if kind == 'str':
            return rng.sample(['v%d' % i for i in range(1, 2 * k)], k)
        if kind == 'tuple':
            return rng.sample([(i, j) for i in range(20) for j in range(k)], k)
        if kind == 'float':
            return rng.sample([i / 4.0 + 0.125 for i in range(-8, 2 * k)], k)
        if kind == 'mixnum':
            return [x if i % 2 else float(x) for i, x in enumerate(rng.sample(range(0, 2 * k), k))]
        if kind == 'lab':
            return [Lab(i) for i in rng.sample(range(2 * k), k)]
        if kind == 'long':
            return rng.sample(['w' * 300 + str(i) for i in range(2 * k)], k)
    if kind == 'int':
        return list(range(1, k + 1))
    if kind == 'perm':
        return rng.sample(range(0, 40), k)
    if kind == 'neg':
        return rng.sample(range(-9, 10), k)
    if kind == 'big':
        return rng.sample([2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 63, 2 ** 64, 10 ** 20,
                           2 ** 32, 0, 1, 65536, -1, 255, 256, 32767, 32768, 2 ** 40], k)
    if kind == 'str':
        return rng.sample(['v%d' % i for i in range(1, 30)], k)
    if kind == 'odd':
        out = rng.sample(["", " ", "a b", "it's", 'say "x"', "a,b", "(1, 2)", "1", "None",
                           "\n", "\u00e9", "x" * 5, "[1]", "\\", "{'a': 1}", "1.0", "\t", "\u65e5"], k)
        if "" in out[n:]:      # the empty string is also an empty collection of edges
            out[out.index("")] = "zz"
        return out
    if kind == 'tuple':
        return rng.sample([(i, j) for i in range(4) for j in range(5)], k)
    if kind == 'float':
        return rng.sample([i / 4.0 + 0.125 for i in range(-8, 20)], k)
    if kind == 'mixnum':
        return [x if i % 2 else float(x) for i, x in enumerate(rng.sample(range(0, 30), k))]
    if kind == 'lab':
        return [Lab(i) for i in rng.sample(range(40), k)]
    if kind == 'long':
        return rng.sample(['w' * 300 + str(i) for i in range(20)], k)
    raise ValueError(kind)


def same(rng, x):
    """x or an object equal to it."""
    if type(x) is int and abs(x) < 2 ** 50 and rng.random() < 0.1:
        return float(x)
    if type(x) is float and x == int(x) and rng.random() < 0.1:
        return int(x)
    return x


class World(object):
    """The registered universes, in both vocabularies."""

    def __init__(self, rng):
        self.rng = rng
        self.regs = {}            # class -> pickled arguments of its registration
        self.sn = 0
        self.slab = []
        self.n = 0
        self.vlab = []
        self.E = []               # edge number -> (label, label) as registered
        self.dn = 0
        self.dlab = []
        self.D = []
        self.vn = 0
        self.vslab = []           # labels of the vertex universe
        self.vcustom = False
        self.conv = {}            # class -> kind of graph objects, 0: edge lists

    def converters(self, c, kind):
        self.conv[c] = kind
        CLS[c].converters = PLAIN[c] if not kind else \
            {'to_graph': Gr, 'to_edges': to_edges if kind == 1 else to_edges_data}

    def wrap(self, c, objs):
        """A graph of a family, as the class wants it."""
        return Gr(objs) if self.conv.get(c) else objs

    # -- sizes
    def size(self, c):
        return {'set': self.sn, 'graph': len(self.E), 'vset': self.vn,
                'ev': len(self.E) + self.n, 'di': len(self.D)}[c]

    def nvert(self, c):
        return self.dn if c == 'di' else self.n

    # -- numbers to objects
    def vert(self, c, v):
        lab = self.dlab if c == 'di' else self.vlab
        if v == 0:
            return lab[-1 - self.rng.randrange(2)]
        return same(self.rng, lab[v - 1])

    def edge(self, c, i, plain=False):
        r = self.rng
        E = self.D if c == 'di' else self.E
        if i == 0:
            return self.unknown_edge(c)
        u, v = E[i - 1][:2]
        if plain:
            return (u, v)
        if c != 'di' and r.random() < 0.4:
            u, v = v, u
        u, v = same(r, u), same(r, v)
        return (u, v, r.choice([0.5, 2, 1])) if r.random() < 0.15 else (u, v)

    def unknown_edge(self, c):
        r = self.rng
        lab = self.dlab if c == 'di' else self.vlab
        E = [e[:2] for e in (self.D if c == 'di' else self.E)]
        n = len(lab) - 2
        non = [(lab[a], lab[b]) for a in range(n) for b in range(n)
               if a != b and (lab[a], lab[b]) not in E and (lab[b], lab[a]) not in E]
        if non and r.random() < 0.6:
            return r.choice(non)
        return (lab[r.randrange(n)], lab[-1]) if r.random() < 0.7 else (lab[-1], lab[-2])

    def elem(self, c, i, plain=False):
        if c == 'set':
            return self.slab[i - 1] if plain or i > self.sn else same(self.rng, self.slab[i - 1])
        if c == 'vset':
            if i == 0:
                return self.vslab[-1 - self.rng.randrange(2)]
            return self.vslab[i - 1] if plain else same(self.rng, self.vslab[i - 1])
        if c == 'ev':
            m = len(self.E)
            if i == 0:
                return self.edge(c, 0) if self.rng.random() < 0.5 else self.vert(c, 0)
            if i > m:
                return self.vlab[i - m - 1] if plain else self.vert(c, i - m)
            return self.edge(c, i, plain)
        return self.edge(c, i, plain)

    def key(self, c, i):
        """Element i as the key of a mapping."""
        if c == 'di' and i > 0:
            return self.elem(c, i, True)
        e = self.elem(c, i)
        edge = c == 'graph' or c == 'ev' and (i == 0 and isinstance(e, tuple) or 0 < i <= len(self.E))
        return e[:2] if edge else e

    def pyset(self, c, ids, member=False, edges=False):
        """A graph/set argument in one of the accepted containers; member:
        an item of a list of graphs; edges: a list of edges, not a graph."""
        objs = [self.elem(c, i) for i in ids]
        if self.conv.get(c) and not edges and (member or self.rng.random() < .5):
            return Gr(objs)
        k = self.rng.randrange(3)
        if c == 'set':
            k = self.rng.randrange(1, 3)
        return [objs, set(objs), frozenset(objs)][k]

    # -- objects to numbers
    def index(self, c, obj):
        def find(lst, x):
            for i, y in enumerate(lst):
                if type(x) is type(y) and x == y:
                    return i + 1
            return 0
        if c == 'set':
            return find(self.slab[:self.sn], obj)
        if c == 'vset':
            return find(self.vslab[:self.vn], obj)
        if c == 'graph':
            return find([e[:2] for e in self.E], obj)
        if c == 'di':
            return find([e[:2] for e in self.D], obj)
        i = find([e[:2] for e in self.E], obj)
        if i:
            return i
        j = find(self.vlab[:self.n], obj)
        return len(self.E) + j if j else 0

    def back(self, c, s):
        if self.conv.get(c):
            s = s.edges if isinstance(s, Gr) else [None]
        ids = [self.index(c, x) for x in s]
        out = sorted(set(ids))
        if len(out) != len(ids):   # an element twice in one set
            out = [0] + out
        return out

    # -- registration; each returns the spec-level arguments
    def register(self, c, args):
        old = dict(self.conv)
        self.regs[c] = args
        try:
            getattr(self, '_reg_' + c)(*args)
        except Exception:
            for c in ('graph', 'di'):
                self.converters(c, old.get(c, 0))
            raise

    def _reg_set(self, labels, n):
        self.slab = list(labels)
        self.sn = n
        setset.set_universe(self.slab[:n])

    def _reg_graph(self, labels, n, E, W, trav, source, form, ws=None):
        """E: pairs of vertex numbers, W: weight or None per edge; ws: weights
        of edges and vertices given separately."""
        lab = list(labels)
        edges = [(lab[u - 1], lab[v - 1]) if w is None else (lab[u - 1], lab[v - 1], w)
                 for (u, v), w in zip(E, W)]
        self.vlab, self.n, self.E = lab, n, edges
        self.vslab, self.vn, self.vcustom = list(labels), n, False
        self.regs.pop('vset', None)
        kw = {}
        if trav is not None:
            kw['traversal'] = trav
        if source:
            kw['source'] = lab[source - 1]
        self.converters('graph', max(form - 2, 0))
        set_universe = GraphSet.set_universe
        if ws or self.rng.random() < .5:
            set_universe = Universe.set_universe
        if ws:
            kw['weights'] = dict((self.pair(lab, e), w) for e, w in zip(E, ws[0]) if w is not None)
            kw['weights'].update((lab[i], w) for i, w in enumerate(ws[1]) if w is not None)
        set_universe(edges if form == 0 else tuple(edges) if form == 1 else
                     list(edges) if form == 2 else Gr(edges), **kw)

    def pair(self, lab, e):
        u, v = e if self.rng.random() < .6 else e[::-1]
        return lab[u - 1], lab[v - 1]

    def _reg_vset(self, labels, n, W, ws=None):
        lab = list(labels)
        uni = []
        for i in range(n):
            w = W[i]
            uni.append(lab[i] if w is None else (lab[i], w))
        if ws:
            Universe.set_vertex_universe(uni, dict((lab[i], w) for i, w in enumerate(ws[:n]) if w is not None))
        else:
            VertexSetSet.set_universe(uni)
        self.vslab, self.vn, self.vcustom = lab, n, True

    def _reg_di(self, labels, n, E, W, trav, source, form=0):
        lab = list(labels)
        edges = [(lab[u - 1], lab[v - 1]) if w is None else (lab[u - 1], lab[v - 1], w)
                 for (u, v), w in zip(E, W)]
        self.dlab, self.dn, self.D = lab, n, edges
        kw = {}
        if trav is not None:
            kw['traversal'] = trav
        if source:
            kw['source'] = lab[source - 1]
        self.converters('di', form)
        DiGraphSet.set_universe(Gr(edges) if form else edges, **kw)

    def observe_universe(self, c):
        """universe() as the specification records it."""
        def w4(x):
            y = x * ONE
            return int(y) if y == int(y) else -999
        if c == 'set':
            return [self.index('set', x) for x in setset.universe()]
        if c in ('graph', 'di'):
            out = []
            u = CLS[c].universe()
            for e in u.edges if self.conv.get(c) else u:
                if len(e) > 2 and isinstance(e[2], dict):
                    e = e[:2] + tuple(e[2].values())
                out.append([self.index(c, e[:2]), len(e) > 2, w4(e[2]) if len(e) > 2 else 0])
            return out
        if c == 'vset':
            out = []
            for v in VertexSetSet.universe():
                i = self.index('vset', v)
                if i:
                    out.append([i, ONE])
                else:
                    out.append([self.index('vset', v[0]), w4(v[1])])
            return out
        from graphillion.universe import Universe
        return [self.index('ev', x) for x in Universe.edge_vertex_universe()]


CLS = {'set': setset, 'graph': GraphSet, 'vset': VertexSetSet,
       'ev': EdgeVertexSetSet, 'di': DiGraphSet}
CLASS_OF = {v: k for k, v in CLS.items()}
