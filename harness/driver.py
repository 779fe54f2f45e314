"""Runs random programs against the real library and records every public
call as one line of a trace for spec/Trace.tla.

usage: driver.py OUT.ndjson SEED PROFILE.json      (or --resume STATE)
"""
import ctypes
import gc
import io
import json
import operator
import os
import pickle
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import _graphillion
from graphillion import (DiGraphSet, EdgeVertexSetSet, GraphSet, VertexSetSet,
                         setset)
from graphillion.graphclass import GraphClass
import world as W
from world import CLS, ONE

ALLC = ['set', 'graph', 'vset', 'ev', 'di']

# spec operation -> method, per naming scheme
NAMES_G = {'subsets': 'subgraphs', 'supersets': 'supergraphs',
           'nonsubsets': 'non_subgraphs', 'nonsupersets': 'non_supergraphs',
           'size': 'graph_size', 'hitting': 'blocking'}
NAMES_S = {'nonsubsets': 'non_subsets', 'nonsupersets': 'non_supersets',
           'size': 'set_size'}
RECONF = {'set': ('remove_some_element', 'add_some_element', 'remove_add_some_elements'),
          'graph': ('remove_some_edge', 'add_some_edge', 'remove_add_some_edges'),
          'di': ('remove_some_edge', 'add_some_edge', 'remove_add_some_edges'),
          'vset': ('remove_some_vertex', 'add_some_vertex', 'remove_add_some_vertices')}
OPERATORS = {'union': operator.or_, 'intersection': operator.and_,
             'difference': operator.sub, 'symmetric_difference': operator.xor,
             'quotient': operator.truediv, 'remainder': operator.mod}
IOPERATORS = {'update': operator.ior, 'intersection_update': operator.iand,
              'difference_update': operator.isub,
              'symmetric_difference_update': operator.ixor,
              'quotient_update': operator.itruediv, 'remainder_update': operator.imod}
COMPARE = {'eq': operator.eq, 'ne': operator.ne, 'le': operator.le, 'lt': operator.lt,
           'ge': operator.ge, 'gt': operator.gt}

BOOL2 = ['union', 'intersection', 'difference', 'symmetric_difference']
UPD = ['update', 'intersection_update', 'difference_update', 'symmetric_difference_update']
CMP = list(COMPARE) + ['isdisjoint', 'issubset', 'issuperset']
KNUTH = ['join', 'meet', 'quotient', 'remainder', 'subsets', 'supersets', 'nonsubsets',
         'nonsupersets']
UNARY = ['minimal', 'maximal', 'hitting', 'complement', 'invert', 'copy']
SIZED = ['smaller', 'larger', 'size']
SELECT = ['including', 'excluding', 'included']
MUT = ['add', 'remove', 'discard', 'flip', 'pop', 'clear']
RECO = ['remove_some', 'add_some', 'remove_add_some']

NOT_EV = {'quotient', 'remainder', 'quotient_update', 'remainder_update', 'hitting',
          'complement', 'invert', 'flip', 'remove_some', 'add_some', 'remove_add_some'}
MUTATES = set(UPD + MUT + ['quotient_update', 'remainder_update', 'flipall', 'add_vertex'])


GROW = {'new', 'add', 'remove', 'discard', 'flip', 'contains', 'including', 'excluding', 'included'}


class Driver(object):

    def __init__(self, out, seed, prof):
        self.out_path = out
        self.out = open(out, 'a')
        self.seed = seed
        self.rng = random.Random(seed)
        self.prof = prof
        self.w = W.World(self.rng)
        self.objs = {}            # handle -> (class, object)
        self.iters = {}           # id -> (class, python iterator)
        self.nh = 0
        self.ni = 0
        self.nev = 0
        self.fdump = {}           # name -> (offset of next unread, [classes])
        self.scratch = prof['scratch']
        self.ghosts = []          # objects kept alive but never used again
        self.sid = 0
        self.kinds = {}
        self.fit = None           # a member of the operand, for arguments that fit it
        self.kind = ''
        self.forced = []          # operands, size bound and argument that grid() asks for
        self.fk = None
        self.farg = None
        self.fgraph = None

    # -- trace
    def emit(self, ev):
        self.nev += 1
        key = ev.get('op', ev['t'])
        self.kinds[key] = self.kinds.get(key, 0) + 1
        self.out.write(json.dumps(ev) + '\n')

    def members(self, c, obj, how=None):
        """The family an object holds, by one of several observers."""
        r = self.rng
        how = how or r.choices(['iter', 'rand', 'in', 'min'],
                               self.prof.get('observers', [8, 1, 2, 1]))[0]
        n = self.w.size(c)
        if how == 'in' and n <= 6:
            out = []
            for bits in range(1 << n):
                ids = [i + 1 for i in range(n) if bits >> i & 1]
                if [self.w.elem(c, i, True) for i in ids] in obj if c != 'set' else \
                        set(self.w.elem(c, i, True) for i in ids) in obj:
                    out.append(ids)
            return out
        it = obj.rand_iter() if how == 'rand' else obj.min_iter() if how == 'min' else iter(obj)
        return [self.w.back(c, s) for s in it]

    def new_handle(self, c, obj):
        self.nh += 1
        self.objs[self.nh] = (c, obj)
        return self.nh

    # -- one call
    def call(self, c, op, hs, x, fn, reply, rc=None):
        """fn() performs the call on the objects hs; reply is its kind."""
        rc = rc or c
        ev = {'t': 'call', 'c': c, 'op': op, 'a': hs, 'x': x, 'h': 0, 'v': 0, 'hs': False}
        first = self.objs[hs[0]][1] if hs else None
        try:
            r = fn()
            self.sizecap(ev)
        except Exception as e:       # noqa
            ev['k'] = 'exc'
            ev['v'] = type(e).__name__
            ev['msg'] = str(e)[:80]
        else:
            ev['k'] = reply
            if reply == 'fam':
                if not isinstance(r, CLS[rc]) and not (rc == 'set' and isinstance(r, _graphillion.setset)):
                    ev['k'] = 'other'
                    ev['v'] = repr(type(r))
                else:
                    if rc == 'set' and not isinstance(r, setset):
                        r = setset(r)
                    ev['h'] = self.new_handle(rc, r)
                    ev['v'] = self.members(rc, r)
            elif reply in ('self', 'self?'):
                ev['k'] = 'self'
                if r is not first and not (r is None and reply == 'self?'):
                    ev['k'] = 'other'
                    ev['v'] = repr(type(r))
            elif reply == 'bool':
                ev['v'] = r if isinstance(r, bool) else repr(r)
            elif reply == 'num':
                ev['v'] = r if isinstance(r, int) and abs(r) < 2 ** 31 else repr(r)
                if not isinstance(ev['v'], int):
                    ev['k'] = 'other'
            elif reply == 'set':
                ev['v'] = self.w.back(c, r)
            elif reply == 'none':
                pass
        self.sizecap(ev)
        if hs and (op in MUTATES or ev['k'] == 'exc' or self.rng.random() < 0.05):
            ev['hs'] = True
            ev['s'] = self.members(self.objs[hs[0]][0], first)
        self.emit(ev)
        return ev

    def sizecap(self, ev):
        """A call may have extended the universe of setset by its new element."""
        if ev['c'] == 'set' and ev['op'] in GROW and self.w.slab:
            self.w.sn = min(len(setset.universe()), len(self.w.slab))

    # -- picking things
    def pick(self, c):
        if self.forced:
            return self.forced.pop(0)
        hs = [h for h in self.objs if self.objs[h][0] == c]
        return self.rng.choice(hs) if hs else None

    def subset(self, n, p=None):
        p = self.rng.choice([0.2, 0.5, 0.8]) if p is None else p
        return [i for i in range(1, n + 1) if self.rng.random() < p]

    def fam_ids(self, c, k=None):
        n = self.w.size(c)
        r = self.rng
        if c == 'ev':
            m = len(self.w.E)
            out = []
            for _ in range(r.choice([0, 1, 2, 4, 7]) if k is None else k):
                es = self.subset(m, None if m <= 12 else r.choice([.05, .2, .6]))
                vs = set(self.subset(self.w.n, 0.2))
                for i in es:
                    u, v = self.w.E[i - 1][:2]
                    vs |= {self.w.vlab.index(u) + 1, self.w.vlab.index(v) + 1}
                out.append(es + [m + v for v in sorted(vs)])
            return out
        if k is None:
            k = r.choice(self.prof.get('fam_k', [0, 1, 2, 3, 5, 8, 12, 20, 40]))
        if c in ('graph', 'di') and r.random() < self.prof.get('plant', .1) and n:
            return self.plants(c, min(k, 12))
        shape = r.random()
        if n > 12:
            return self.sparse_ids(n, k)
        if shape < 0.15 and n > 0:     # shifted copies: shared subdiagrams
            base = [self.subset(n) for _ in range(max(1, k // 4))]
            return [sorted(set(b) ^ set(self.subset(n, 0.15))) for b in base for _ in range(3)]
        if shape < 0.25:               # all sets of one size
            import itertools
            s = r.randrange(0, n + 1)
            return [list(t) for t in itertools.combinations(range(1, n + 1), s)][:60]
        return [self.subset(n) for _ in range(k)]

    def sparse_ids(self, n, k):
        """k sets over a wide universe, related so that they interact."""
        r = self.rng
        dens = r.choice(self.prof.get('density', [.03, .1, .3, .9]))
        shape = r.random()
        if shape < .2:                 # few elements, anywhere
            pool = r.sample(range(1, n + 1), min(n, 8))
            return [sorted(x for x in pool if r.random() < .5) for _ in range(k)]
        if shape < .45:                # variations of a few sets
            base = [self.subset(n, dens) for _ in range(max(1, k // 6))]
            return [sorted(set(r.choice(base)) ^ set(r.sample(range(1, n + 1), r.choice([0, 1, 1, 2, 3]))))
                    for _ in range(k)]
        if shape < .6:                 # a chain and intervals
            a, out = 1, []
            for _ in range(k):
                a = r.randint(1, n)
                out.append(list(range(a, min(n, a + r.choice([0, 1, 2, 5, n])) + 1)))
            return out
        return [self.subset(n, dens) for _ in range(k)]

    # -- universes
    def universe(self, c, bad=False, small=None):
        r = self.rng
        x, args = getattr(self, '_uni_' + c)(bad)
        ev = {'t': 'universe', 'c': c, 'x': x}
        keep = pickle.loads(pickle.dumps({k: v for k, v in self.w.__dict__.items()
                                          if k not in ('rng', 'regs')}))
        regs = dict(self.w.regs)
        try:
            self.w.register(c, args)
            ev['ok'] = True
            dep = {'set': ['set'], 'graph': ['graph', 'vset', 'ev'], 'vset': ['vset'], 'di': ['di']}[c]
            gone = [h for h in self.objs if self.objs[h][0] in dep]
            for h in gone:
                if r.random() < 0.3:
                    self.ghosts.append(self.objs[h][1])
                del self.objs[h]
            self.ghosts = self.ghosts[-20:]
            self.iters.clear()
        except Exception as e:   # noqa
            ev['ok'] = False
            ev['exc'] = type(e).__name__
            self.w.__dict__.update(keep)
            self.w.regs = regs
        self.emit(ev)
        if self.objs and not ev['ok']:
            self.audit()
        self.uniquery()

    def uniquery(self):
        for c in ALLC:
            if self.w.size(c):
                ordered = c == 'graph' and self.w.regs['graph'][4] == 'as-is' or \
                    c == 'di' and self.w.regs['di'][4] == 'as-is'
                self.emit({'t': 'uniquery', 'c': c, 'obs': self.w.observe_universe(c),
                           'ordered': bool(ordered)})

    def _label(self, n):
        kinds = self.prof.get('labels', W.LABEL_KINDS)
        if n > 9:
            kinds = [k for k in kinds if k in W.WIDE_KINDS]
        kind = self.rng.choice(kinds)
        return W.make_labels(self.rng, kind, n)

    def _uni_set(self, bad):
        r = self.rng
        n = r.randint(*self.prof.get('set_n', [1, 6]))
        lab = self._label(n + 3)
        if bad:
            return {'bad': True, 'n': n}, (lab[:n] + [lab[0]], n + 1)
        return {'bad': False, 'n': n}, (lab, n)

    def graph(self, lo, hi, nmax, directed=False):
        """A random simple (di)graph: n, list of edges, no isolated vertices."""
        r = self.rng
        if self.fgraph:
            return self.fgraph
        if self.prof.get('shapes') and r.random() < self.prof.get('shape_p', .8):
            if self.prof.get('long'):
                hi = r.choice(self.prof['long'])
            n, E = getattr(self, 'shape_di' if directed else 'shape')(r.choice(self.prof['shapes']), hi)
            if r.random() < .3 and hi < 100:
                r.shuffle(E)
            ren = list(range(1, n + 1))
            if r.random() < .5:
                r.shuffle(ren)
            return n, [(ren[u - 1], ren[v - 1]) for u, v in E]
        m = r.randint(lo, hi)
        n = r.randint(2, nmax)
        while (n * (n - 1) if directed else n * (n - 1) // 2) < m:
            n += 1
        kind = r.random()
        E = []
        if kind < 0.25 and not directed:   # structured
            import itertools
            k = r.choice(['complete', 'cycle', 'grid', 'star', 'path', 'wheel', 'bip', 'two', 'book'])
            if k == 'complete':
                E = list(itertools.combinations(range(1, n + 1), 2))
            elif k == 'cycle':
                E = [(i, i % max(n, 3) + 1) for i in range(1, max(n, 3) + 1)]
            elif k == 'grid':
                a, b = r.choice([(2, 2), (2, 3), (3, 2), (2, 4), (3, 3)])
                E = [(i * b + j + 1, i * b + j + 2) for i in range(a) for j in range(b - 1)] + \
                    [(i * b + j + 1, (i + 1) * b + j + 1) for i in range(a - 1) for j in range(b)]
            elif k == 'star':
                E = [(1, i) for i in range(2, n + 1)]
            elif k == 'path':
                E = [(i, i + 1) for i in range(1, n)]
            elif k == 'wheel':
                q = max(3, n - 1)
                E = [(i, i % q + 1) for i in range(1, q + 1)] + [(i, q + 1) for i in range(1, q + 1)]
            elif k == 'bip':
                a = r.randint(1, 3)
                E = [(i, j) for i in range(1, a + 1) for j in range(a + 1, a + 1 + r.randint(1, 3))]
            elif k == 'two':
                E = [(1, 2), (2, 3), (1, 3), (4, 5), (5, 6), (4, 6)]
            else:
                E = [(1, 2)] + [e for i in range(3, 6) for e in ((1, i), (2, i))]
            E = E[:hi]
            E = [e if r.random() < .5 else e[::-1] for e in E]
        else:
            pool = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1)
                    if (u != v if directed else u < v)]
            E = r.sample(pool, min(m, len(pool)))
            if not directed:
                E = [e if r.random() < .5 else e[::-1] for e in E]
        if r.random() < 0.7:
            r.shuffle(E)
        used = sorted(set(v for e in E for v in e))
        ren = {v: i + 1 for i, v in enumerate(r.sample(used, len(used)))}
        return len(used), [(ren[u], ren[v]) for u, v in E]

    def shape(self, kind, hi):
        """A larger structured graph with at most about hi edges."""
        import itertools
        r = self.rng
        hi = max(hi, 8)
        self.kind = kind
        if kind == 'grid':
            a, b = r.choice([d for d in [(3, 3), (3, 4), (4, 3), (4, 4), (3, 6), (5, 5), (2, 9), (9, 2), (6, 6)]
                             if d[0] * (d[1] - 1) + d[1] * (d[0] - 1) <= hi] or [(2, 2)])
            E = [(i * b + j + 1, i * b + j + 2) for i in range(a) for j in range(b - 1)] + \
                [(i * b + j + 1, (i + 1) * b + j + 1) for i in range(a - 1) for j in range(b)]
            if r.random() < .5:
                E.sort()
        elif kind == 'complete':
            k = max(k for k in range(3, 9) if k * (k - 1) // 2 <= hi)
            E = list(itertools.combinations(range(1, k + 1), 2))
        elif kind == 'cycle':
            k = r.randint(3, hi)
            E = [(i, i % k + 1) for i in range(1, k + 1)]
        elif kind == 'path':
            E = [(i, i + 1) for i in range(1, r.randint(2, hi) + 1)]
        elif kind == 'bip':
            a = r.randint(2, 4)
            b = min(hi // a, r.randint(2, 5))
            E = [(i, a + j) for i in range(1, a + 1) for j in range(1, b + 1)]
        elif kind == 'petersen':
            E = ([(i, i % 5 + 1) for i in range(1, 6)] + [(i, i + 5) for i in range(1, 6)] +
                 [(i + 6, (i + 2) % 5 + 6) for i in range(5)])[:hi]
        elif kind == 'wheel':
            q = r.randint(4, hi // 2)
            E = [(i, i % q + 1) for i in range(1, q + 1)] + [(i, q + 1) for i in range(1, q + 1)]
        elif kind == 'tree':
            q = r.randint(3, hi)
            E = [(r.randint(max(1, i - 4), i - 1), i) for i in range(2, q + 2)]
        elif kind == 'cactus':
            E, k = [], 1
            while len(E) + 4 <= hi:
                q, a = r.choice([3, 4]), r.randint(max(1, k - 3), k)
                vs = [a] + list(range(k + 1, k + q))
                E += [(vs[i], vs[(i + 1) % q]) for i in range(q)][:q if r.random() < .8 else q - 1]
                k += q - 1
        elif kind == 'parts':          # several components
            E, k = [], 0
            while len(E) + 6 <= hi:
                q = r.choice([2, 3, 4])
                E += [(k + a, k + b) for a, b in itertools.combinations(range(1, q + 1), 2)]
                k += q
        elif kind == 'longpath':
            q = r.randint(max(3, hi * 4 // 5), hi)
            E = [(i, i + 1) for i in range(1, q + 1)] + ([(q + 1, 1)] if r.random() < .3 else [])
        elif kind == 'ring':           # one long cycle, some chords and tails
            q = r.randint(max(3, hi - 12), hi - 3)
            E = [(i, i % q + 1) for i in range(1, q + 1)]
            for _ in range(r.choice([0, 0, 1, 3])):
                i = r.randint(1, q - 2)
                E.insert(i + 1, (i, i + 2) if r.random() < .7 else (i, q + 1))
            E = list(dict.fromkeys(E))
        elif kind == 'star':           # a vertex of large degree, and some tails
            q = r.randint(max(3, hi * 4 // 5), hi)
            E = [(1, i) for i in range(2, q + 2)]
            for i in r.sample(range(len(E)), min(hi - q, 3)):
                E.insert(r.randint(0, len(E)), (E[i][1], q + 2 + i))
        elif kind == 'fan':            # triangles at one vertex
            E = [e for i in range(2, hi // 3 * 2 + 1, 2) for e in ((1, i), (i, i + 1), (1, i + 1))]
        elif kind == 'pairs':          # many components
            E = [(2 * i - 1, 2 * i) for i in range(1, hi + 1)]
        elif kind == 'spokes':         # a wide frontier: all spokes, then the rest
            q = hi // 2
            E = [(1, i + 1) for i in range(1, q + 1)]
            more = [(i + 1, q + 1 + i) for i in range(1, q + 1)]
            if r.random() < .5:
                more = [(i + 1, i + 2) for i in range(1, q)] + ([(2, q + 1)] if q > 2 else [])
            E += more
        elif kind == 'rails':          # two long paths, then the rungs
            q = hi // 3
            E = [(i, i + 1) for i in range(1, q)] + [(q + i, q + i + 1) for i in range(1, q)] + \
                [(i, q + i) for i in range(1, q + 1)]
        elif kind == 'twohubs':
            q = hi // 2
            E = [(1, i + 2) for i in range(1, q + 1)] + [(2, i + 2) for i in range(1, q + 1)]
        elif kind == 'layers':         # two matchings between three layers
            q = hi // 2
            E = [(i, q + i) for i in range(1, q + 1)] + [(q + i, 2 * q + i) for i in range(1, q + 1)]
        elif kind == 'random':
            q = r.choice([hi // 2, hi * 3 // 4, hi])
            E = list({tuple(sorted(r.sample(range(1, q + 1), 2))) for _ in range(hi)})
            r.shuffle(E)
        elif kind == 'spider':
            q, E, k = 3, [], 1
            while len(E) + q <= hi:
                a = 1
                for _ in range(q):
                    E.append((a, k + 1))
                    a = k = k + 1
        elif kind == 'comb':
            q = hi // 2
            E = [e for i in range(1, q + 1) for e in ((i, i + 1), (i, q + 1 + i))]
        elif kind == 'ladder':
            q = hi // 3
            E = [e for i in range(1, 2 * q, 2) for e in ((i, i + 1), (i, i + 2), (i + 1, i + 3))]
        else:                          # local random graph: narrow frontier
            q = r.randint(5, 3 + hi // 2)
            pool = [(i, j) for i in range(1, q + 1) for j in range(i + 1, min(q, i + 4) + 1)]
            E = sorted(r.sample(pool, min(len(pool), hi)))
        E = [e if r.random() < .5 else e[::-1] for e in E]
        used = sorted(set(v for e in E for v in e))
        ren = {v: i + 1 for i, v in enumerate(used)}
        return len(used), [(ren[u], ren[v]) for u, v in E]

    def shape_di(self, kind, hi):
        n, E = self.shape(kind, hi if kind == 'ring' or self.rng.random() < .5 else max(3, hi // 2))
        out = []
        for u, v in E:
            out.append((u, v))
            if len(E) + len(out) < hi and self.rng.random() < .5:
                out.append((v, u))
        if kind == 'ring' and self.rng.random() < .3:
            E = [e if self.rng.random() < .97 else e[::-1] for e in E]
        return n, out[:hi] if len(set(x for e in out[:hi] for x in e)) == n else E

    def _weights(self, k):
        r = self.rng
        mode = r.choice(['none', 'none', 'some', 'all'])
        out = []
        for _ in range(k):
            if mode == 'none' or mode == 'some' and r.random() < 0.5:
                out.append(None)
            else:
                out.append(r.choice([0, 1, 2, 3, -1, 0.5, 2.25, -0.75, 7, 100]))
        return out

    def _uni_graph(self, bad):
        r = self.rng
        n, E = self.graph(*self.prof.get('graph_m', [1, 6]), nmax=self.prof.get('graph_n', 5))
        Wt = self._weights(len(E))
        trav = r.choice(self.prof.get('trav', ['as-is', 'as-is', 'greedy', 'bfs', 'dfs', None]))
        source = r.randint(1, n) if r.random() < 0.3 else 0
        lab = self._label(n)
        x = {'bad': False, 'n': n, 'E': [list(e) for e in E],
             'w': [ONE if w is None else int(w * ONE) for w in Wt],
             'wx': [w is not None for w in Wt], 'vw': [ONE] * n}
        form = r.choice([3, 4]) if r.random() < self.prof.get('conv', 0) else r.randrange(3)
        ws = None                  # the weights argument: edges and vertices
        if r.random() < self.prof.get('weights', .25):
            We, Wv = self._weights(len(E)), self._weights(n)
            if form == 4:          # all edges have attributes
                We = [None] * len(E)
            ws = We, Wv            # a weight in the edge itself has priority
            both = [a if a is not None else b for a, b in zip(Wt, We)]
            x.update(w=[ONE if w is None else int(w * ONE) for w in both], wx=[w is not None for w in both],
                     vw=[ONE if w is None else int(w * ONE) for w in Wv])
        if bad:
            x['bad'] = True
            k = r.choice(['dup', 'rev', 'empty', 'trav', 'src'])
            if k == 'dup':
                E, Wt = E + [E[0]], Wt + [None]
            elif k == 'rev':
                E, Wt = E + [E[0][::-1]], Wt + [1]
            elif k == 'empty':
                E, Wt, source = [], [], 0
                trav = r.choice([None, 'as-is', 'bfs'])
            elif k == 'trav':
                trav = 'spiral'
            else:
                trav, source = r.choice(['bfs', 'dfs', 'greedy']), n + 1
        return x, (lab, n, E, Wt, trav, source, form, ws)

    def _uni_di(self, bad):
        r = self.rng
        n, E = self.graph(*self.prof.get('di_m', [1, 6]), nmax=self.prof.get('di_n', 4), directed=True)
        Wt = self._weights(len(E))
        trav = r.choice(self.prof.get('trav', ['as-is', 'as-is', 'greedy', 'bfs', 'dfs', None]))
        source = r.randint(1, n) if r.random() < 0.3 else 0
        lab = self._label(n)
        x = {'bad': False, 'n': n, 'E': [list(e) for e in E],
             'w': [ONE if w is None else int(w * ONE) for w in Wt],
             'wx': [w is not None for w in Wt]}
        if bad:
            x['bad'] = True
            k = r.choice(['dup', 'empty', 'trav', 'src'])
            if k == 'dup':
                E, Wt = E + [E[0]], Wt + [None]
            elif k == 'empty':
                E, Wt, source = [], [], 0
            elif k == 'trav':
                trav = 'spiral'
            else:
                trav, source = r.choice(['bfs', 'dfs', 'greedy']), n + 1
        return x, (lab, n, E, Wt, trav, source, r.choice([1, 2]) if r.random() < self.prof.get('conv', 0) else 0)

    def _uni_vset(self, bad):
        r = self.rng
        n = r.randint(1, self.prof.get('vset_n', 5))
        lab = W.make_labels(r, r.choice(['int', 'str', 'perm', 'odd' if n < 10 else 'neg']), n)
        Wt = [None if r.random() < .5 else r.choice([1, 2, 0.5, -1, 0]) for _ in range(n)]
        if bad:
            return {'bad': True, 'n': n, 'w': []}, (lab[:n] + [lab[0]], n + 1, Wt + [None])
        ws = self._weights(n) if r.random() < self.prof.get('weights', .25) else None
        both = [b if a is None and ws else a for a, b in zip(Wt, ws or Wt)]
        return {'bad': False, 'n': n, 'w': [ONE if w is None else int(w * ONE) for w in both]}, (lab, n, Wt, ws)

    # -- arguments for element/set/vertex parameters
    def arg(self, c, ts, perr=None):
        """(x, object): x.t in ts names the type; unknown things with perr."""
        r = self.rng
        if self.farg:
            t, e = self.farg
            return {'t': t, 'e': e}, {'set': self.w.pyset, 'elem': self.w.elem, 'vert': self.w.vert}[t](c, e)
        perr = self.prof.get('perr', 0.06) if perr is None else perr
        t = r.choice(ts)
        n = self.w.size(c)
        err = r.random() < perr
        if t == 'set':
            ids = self.subset(n)
            if c == 'set':
                if err and self.w.sn < 8 and len(self.w.slab) > n:
                    ids = ids + [n + 1]
            elif err:
                ids = ids + [0]
            x = {'t': 'set', 'e': ids}
            obj = self.w.pyset(c, ids)
            return x, obj
        if t == 'elem':
            i = r.randint(1, n) if n else 0
            if c == 'set':
                if err and self.w.sn < 8 and len(self.w.slab) > n:
                    i = n + 1
            elif err:
                i = 0
            if c == 'ev' and i == 0:
                i = 0
            return {'t': 'elem', 'e': i}, self.w.elem(c, i)
        v = 0 if err else r.randint(1, self.w.nvert(c))
        return {'t': 'vert', 'e': v}, self.w.vert(c, v)

    def member_arg(self, c, h):
        """A member of h (or near it) as a set argument."""
        ms = self.members(c, self.objs[h][1], 'iter')
        if self.farg or not ms or self.rng.random() < 0.3:
            return self.arg(c, ['set'])
        ids = self.rng.choice(ms)
        return {'t': 'set', 'e': ids}, self.w.pyset(c, ids)

    # -- operations
    def name(self, c, op):
        return (NAMES_S if c == 'set' else NAMES_G).get(op, op)

    def do(self, c, op):
        """Performs op on class c with random operands; False if not possible."""
        r = self.rng
        if c == 'ev' and op in NOT_EV:
            return False
        exact = bool(self.forced)
        h = self.pick(c)
        if op == 'new':
            return self.do_new(c)
        if op.startswith('near:'):
            return self.do_near(c, op[5:])
        if op in GRAPHOPS:
            return self.do_graph(op, None) if c == 'graph' else False
        if op in DIOPS:
            return self.do_di(op, None) if c == 'di' else False
        if op in VERTOPS:
            return self.do_vert(op) if c == 'vset' else False
        if h is None:
            return False
        o = self.objs[h][1]
        w = self.w
        if op in BOOL2 + UPD:
            k = r.choices([1, 2, 3, 0], [8, 2, 1, 1])[0] if not exact else 1
            hs = [h] + [h if not exact and r.random() < .1 else self.pick(c) for _ in range(k)]
            others = [self.objs[i][1] for i in hs[1:]]
            f = None
            if k == 1 and r.random() < 0.5:
                f = (OPERATORS if op in BOOL2 else IOPERATORS)[op]
            fn = (lambda: f(o, others[0])) if f else (lambda: getattr(o, op)(*others))
            if op in BOOL2:
                self.call(c, op, hs, {}, fn, 'fam')
            else:
                # setset's update methods return None; its operators return the object
                self.call(c, op, hs, {}, fn, 'self?' if c == 'set' and not f else 'self')
            return True
        if op in ('quotient', 'remainder', 'quotient_update', 'remainder_update'):
            h2 = self.pick(c)
            o2 = self.objs[h2][1]
            if w.size(c) > 12 and o.len() * o2.len() > 2000:
                return False
            upd = op.endswith('update')
            k = r.randrange(3)
            ops = (IOPERATORS if upd else OPERATORS)
            if k == 0:
                fn = lambda: ops[op](o, o2)
            elif k == 1 and op.startswith('quotient'):
                fn = lambda: (operator.ifloordiv if upd else operator.floordiv)(o, o2)
                if c == 'set':
                    fn = lambda: ops[op](o, o2)
            else:
                k = 2
                fn = lambda: getattr(o, op)(o2)
            self.call(c, op, [h, h2], {}, fn,
                      'fam' if not upd else 'self?' if c == 'set' and k == 2 else 'self')
            return True
        if op in KNUTH:
            h2 = h if not exact and r.random() < .05 else self.pick(c)
            o2 = self.objs[h2][1]
            if w.size(c) > 12 and o.len() * o2.len() > 2000:
                return False
            self.call(c, op, [h, h2], {}, lambda: getattr(o, self.name(c, op))(o2), 'fam')
            return True
        if op in CMP:
            h2 = h if not exact and r.random() < .1 else self.pick(c)
            o2 = self.objs[h2][1]
            if op in COMPARE:
                fn = lambda: COMPARE[op](o, o2)
            else:
                fn = lambda: getattr(o, op)(o2)
            self.call(c, op, [h, h2], {}, fn, 'bool')
            return True
        if op == 'bool':
            self.call(c, op, [h], {}, lambda: bool(o), 'bool')
            return True
        if op == 'text':
            return self.do_text(c, h)
        if op == 'len':
            k = r.randrange(2)
            self.call(c, op, [h], {}, lambda: len(o) if k else o.len(), 'num')
            return True
        if op == 'samedump':
            h2 = self.pick(c)
            o2 = self.objs[h2][1]
            self.call(c, op, [h, h2], {}, lambda: o.dumps() == o2.dumps(), 'bool')
            return True
        if op in UNARY:
            if op == 'invert':
                fn = lambda: ~o
            elif op == 'copy':
                fn = (lambda: o.copy()) if r.random() < .5 else (lambda: CLS[c](o))
            elif op == 'complement' and c == 'set':
                self.call(c, 'flipall', [h], {}, lambda: o.flip(), 'none')
                return True
            elif op == 'hitting' and c != 'set' and r.random() < .5:
                fn = lambda: o.hitting()
            else:
                fn = lambda: getattr(o, self.name(c, op))()
            self.call(c, op, [h], {}, fn, 'fam')
            return True
        if op in SIZED:
            k = r.choice([0, 1, 2, 3, w.size(c), w.size(c) + 1, r.randint(0, w.size(c) + 3), 100])
            if w.size(c) > 12 and r.random() < .6 and o:
                k = len(w.back(c, next(o.rand_iter()))) + r.choice([0, 0, 1, -1, 256, -256])
                k = max(k, 0)
            if r.random() < .12:           # nothing is that large; logged as a number TLC has
                k = r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 63 - 1, 2 ** 63, 2 ** 70]) \
                    + r.randint(-2, 3)
            if self.fk is not None:
                k = self.fk
            if op == 'size' and r.random() < 0.5:
                fn = lambda: o.len(k)
            else:
                fn = lambda: getattr(o, self.name(c, op))(k)
            self.call(c, op, [h], {'k': min(k, 10 ** 6)}, fn, 'fam')
            return True
        if op in RECO:
            if w.size(c) > 12 and o.len() * w.size(c) * (6 if op == 'remove_add_some' else 1) > (
                    2500 if w.size(c) < 200 else 800):
                return False
            self.call(c, op, [h], {}, getattr(o, RECONF[c][RECO.index(op)]), 'fam')
            return True
        if op in SELECT:
            return self.do_select(c, op, h)
        if op == 'contains':
            ts = ['set', 'elem'] + (['vert'] if c in ('graph', 'di') else [])
            t = self.farg[0] if self.farg else r.choice(ts)
            x, a = self.member_arg(c, h) if t == 'set' and r.random() < .6 else self.arg(c, [t])
            if c == 'set' and isinstance(a, list):
                a = set(a)
            self.call(c, op, [h], x, lambda: a in o, 'bool')
            return True
        if op in ('add', 'remove', 'discard', 'flip'):
            return self.do_mut(c, op, h)
        if op == 'pop':
            self.call(c, op, [h], {}, lambda: o.pop(), 'set')
            return True
        if op == 'clear':
            self.call(c, op, [h], {}, lambda: o.clear(), 'none')
            return True
        if op == 'choice':
            self.call(c, op, [h], {}, lambda: o.choice(), 'set')
            return True
        if op == 'reload':
            return self.do_reload(c, h)
        if op in ('cost_le', 'cost_ge', 'cost_eq'):
            return self.do_cost(c, op, h)
        if op == 'probability':
            return self.do_prob(c, h)
        if op == 'iter':
            return self.do_iter(c, h)
        if op == 'twin':
            return self.do_twin(c, h)
        if op == 'draws':
            return self.do_draws(c, h)
        if op in ('to_vset', 'to_ev'):
            if c != 'graph' or op == 'to_vset' and w.vcustom:
                return False
            rc = op[3:]
            self.call(c, op, [h], {}, o.to_vertexsetset if op == 'to_vset' else o.to_edgevertexsetset,
                      'fam', rc)
            return True
        if op == 'forbidden':
            if c != 'graph':
                return False
            self.call(c, op, [h], {}, lambda: GraphSet.forbidden_induced_subgraphs(o), 'fam')
            return True
        if op == 'flipall':
            if c != 'set':
                return False
            self.call(c, op, [h], {}, lambda: o.flip(), 'none')
            return True
        if op.startswith('in:'):          # constructor restricted to a family
            if c == 'graph' and op[3:] in GRAPHOPS:
                return self.do_graph(op[3:], h)
            if c == 'di' and op[3:] in DIOPS:
                return self.do_di(op[3:], h)
            return False
        raise ValueError(op)

    def do_new(self, c):
        r = self.rng
        n = self.w.size(c)
        t = r.choices(['sets', 'con', 'none'], [6, 3 if n <= 12 else 0, 1])[0]
        if t == 'none':
            self.call(c, 'new', [], {'t': 'none'}, lambda: CLS[c](), 'fam')
            return True
        err = r.random() < self.prof.get('perr', 0.06)
        if t == 'sets':
            fam = self.fam_ids(c)
            if err and c == 'ev' and self.w.E:
                bad = [r.randint(1, len(self.w.E))] if r.random() < 0.5 else [0]
                fam = fam + [bad]
            elif err and c != 'set':
                fam = fam + [self.subset(n) + [0]]
            elif err and self.w.sn < 8 and len(self.w.slab) > n:
                fam = fam + [self.subset(n) + [n + 1]]
            objs = [self.w.pyset(c, s, True) for s in fam]
            if c != 'set' and not self.w.conv.get(c) and r.random() < 0.2:
                objs = set(frozenset(o) for o in objs)
            # the list may name a set twice; the trace lists what was given
            self.call(c, 'new', [], {'t': 'sets', 'e': fam}, lambda: CLS[c](objs), 'fam')
            return True
        if c == 'ev':
            d = {}
            x = {'t': 'con', 'inc': [], 'exc': []}
            if err:
                x['inc'] = [1]
                d = {'include': [self.w.elem(c, 1)]}
            self.call(c, 'new', [], x, lambda: CLS[c](d), 'fam')
            return True
        inc = self.subset(n, 0.25)
        exc = [i for i in self.subset(n, 0.25) if i not in inc or r.random() < 0.05]
        if err:
            if c == 'set':
                if self.w.sn < 7 and len(self.w.slab) > n:
                    exc = exc + [n + 1]
            else:
                (inc if r.random() < .5 else exc).append(0)
        d = {}
        if inc or r.random() < .5:
            d['include'] = self.w.pyset(c, inc, edges=True)
        if exc or r.random() < .5:
            d['exclude'] = self.w.pyset(c, exc, edges=True)
        self.call(c, 'new', [], {'t': 'con', 'inc': inc, 'exc': exc}, lambda: CLS[c](d), 'fam')
        return True

    def do_select(self, c, op, h):
        exact = bool(self.forced)
        r = self.rng
        o = self.objs[h][1]
        if c == 'set':
            t = r.choice(['fam', 'elem']) if op != 'included' else 'fam'
            m = {'including': 'supersets', 'excluding': 'non_supersets', 'included': 'subsets'}[op]
        else:
            t = r.choice(['fam', 'set', 'elem'] + (['vert'] if c in ('graph', 'di') else []))
            m = op
            if c == 'vset' and t == 'elem' and op == 'included':
                t = 'set'
        if self.farg or exact:
            t = self.farg[0] if self.farg else 'fam'
        if t == 'fam':
            h2 = self.pick(c)
            o2 = self.objs[h2][1]
            if o.len() * o2.len() > 40000:
                return False
            self.call(c, op, [h, h2], {'t': 'fam'}, lambda: getattr(o, m)(o2), 'fam')
            return True
        x, a = self.arg(c, [t]) if t != 'set' or r.random() < .5 else self.member_arg(c, h)
        if c == 'ev' and t == 'set' and not self.farg:
            # a set argument of EdgeVertexSetSet is a graph: it has its endpoints
            fam = self.fam_ids('ev', 1)
            x = {'t': 'set', 'e': fam[0]}
            if r.random() < self.prof.get('perr', .06):
                x['e'] = x['e'] + [0]
            a = self.w.pyset('ev', x['e'])
        self.call(c, op, [h], x, lambda: getattr(o, m)(a), 'fam')
        return True

    def do_text(self, c, h):
        """repr or str, which lists the members or the first of them."""
        import ast
        import re
        lab = {'set': self.w.slab, 'vset': self.w.vslab, 'di': self.w.dlab}.get(c, self.w.vlab)
        if not all(isinstance(x, (int, float)) or isinstance(x, str) and re.match(r'\w+$', x) or
                   isinstance(x, tuple) and all(isinstance(y, int) for y in x) for x in lab):
            return False
        o = self.objs[h][1]
        t = repr(o) if self.rng.random() < .5 else str(o)
        head = type(o).__name__ + '(['
        full = t[-2:] == '])'
        v = []
        if t.startswith(head) and (full or t[-4:] == ' ...'):
            for s in re.findall(r'\[([^\[\]]*)\]', t[len(head):]):
                v.append([self.w.index(c, x) for x in ast.literal_eval('[' + s + ']')])
        else:
            v = [[0]]
        self.emit({'t': 'text', 'h': h, 'full': full, 'v': v})
        return True

    def do_mut(self, c, op, h):
        r = self.rng
        o = self.objs[h][1]
        ts = {'set': ['set', 'elem'], 'vset': ['set', 'elem'],
              'graph': ['set', 'set', 'elem', 'elem', 'vert'], 'di': ['set', 'set', 'elem', 'elem', 'vert'],
              'ev': ['set', 'set', 'elem']}[c]
        if op == 'flip':
            ts = ['elem'] if c == 'set' else ['elem', 'elem', 'elem', 'set'] + \
                (['vert'] if c in ('graph', 'di') else [])
        t = self.farg[0] if self.farg else r.choice(ts)
        x, a = self.member_arg(c, h) if t == 'set' and op in ('remove', 'discard') else self.arg(c, [t])
        if c == 'set' and isinstance(a, list):
            a = set(a)
        m = op
        if c == 'ev':
            x['m'] = op
            if op == 'add' and t == 'elem' and (r.random() < 0.8 or self.farg):
                m = x['m'] = 'add_vertex'
        self.call(c, op, [h], x, lambda: getattr(o, m)(a), 'none')
        return True

    def do_reload(self, c, h):
        r = self.rng
        o = self.objs[h][1]
        k = r.randrange(3)
        if k == 0:
            fn = lambda: CLS[c].loads(o.dumps())
        else:
            path = os.path.join(self.scratch, 'one')

            def fn():
                with open(path, 'w') as f:
                    o.dump(f)
                with open(path) as f:
                    return CLS[c].load(f)
        self.call(c, 'reload', [h], {}, fn, 'fam')
        return True

    def do_cost(self, c, op, h):
        r = self.rng
        if c == 'set':
            op = 'cost_le'
        o = self.objs[h][1]
        n = self.w.size(c)
        mode = r.choice(['small', 'small', 'mid', 'huge', 'neg'])
        val = {'small': lambda: r.randint(-3, 4), 'mid': lambda: r.randint(-70000, 70000),
               'huge': lambda: r.choice([2 ** 31 - 1, -2 ** 31 + 1, 2 ** 31 - 2, 2 ** 30, -2 ** 30,
                                         r.randint(-2 ** 31 + 1, 2 ** 31 - 1), 0, 1]),
               'neg': lambda: -r.randint(0, 9)}[mode]
        cost = {i: val() for i in range(1, n + 1)}
        fam = self.members(c, o, 'iter')
        tot = [sum(cost[i] for i in s) for s in fam] or [0]
        b = r.choice([r.choice(tot), r.choice(tot) - 1, r.choice(tot) + 1, min(tot) - 1, max(tot) + 1, 0])
        err = r.random() < self.prof.get('perr', .06)
        items = list(cost.items())
        r.shuffle(items)
        objs = [(self.w.key(c, i), v) for i, v in items]
        if err:
            k = r.randrange(3)
            if k == 0 and items:
                items, objs = items[1:], objs[1:]
            elif k == 1 and c != 'set':
                items, objs = items + [(0, 1)], objs + [(self.w.key(c, 0), 1)]
            elif items:
                v = 2 ** 31 if op != 'cost_ge' else -2 ** 31 - 1
                if r.random() < .5 and op != 'cost_ge':
                    v = -2 ** 31 - 1
                items[0], objs[0] = (items[0][0], v), (objs[0][0], v)
        big = lambda v: [v >> 16, v & 0xffff]
        costs = dict(objs)
        if len(costs) != len(objs):      # equal keys in two spellings
            return False
        self.call(c, op, [h], {'w': [[i, big(v)] for i, v in items], 'b': big(b)},
                  lambda: getattr(o, op)(costs, b), 'fam')
        if r.random() < 0.6:             # the same query with other bounds
            for _ in range(r.randint(1, 3)):
                b2 = r.choice(tot) + r.choice([-1, 0, 1])
                self.call(c, op, [h], {'w': [[i, big(v)] for i, v in items], 'b': big(b2)},
                          lambda: getattr(o, op)(costs, b2), 'fam')
        return True

    def do_prob(self, c, h):
        r = self.rng
        o = self.objs[h][1]
        n = self.w.size(c)
        d = 4 if n <= 8 else 2 if n <= 12 else 1
        if r.random() < .3 and n <= 6:
            d = 8
        items = [(i, r.choice([0, d, r.randint(0, d), r.randint(0, d)])) for i in range(1, n + 1)]
        r.shuffle(items)
        if r.random() < self.prof.get('perr', .06) and items:
            k = r.randrange(3)
            if k == 0:
                items = items[1:]
            elif k == 1:
                items[0] = (items[0][0], r.choice([-1, d + 1]))
            elif c != 'set':
                items.append((0, 1))
        ps = {}
        for i, p in items:
            ps[self.w.key(c, i)] = p / d
        if len(ps) != len(items):
            return False

        def fn():
            v = o.probability(ps) * d ** n
            return int(round(v)) if abs(v - round(v)) < 1e-6 else repr(v)
        self.call(c, 'probability', [h], {'p': [list(t) for t in items], 'd': d}, fn, 'num')
        return True

    def do_rel(self):
        r = self.rng
        w = self.w
        n, m = w.n, len(w.E)
        if not m:
            return False
        d = 4 if m <= 8 else 2
        items = [(i, r.choice([0, d, r.randint(0, d), r.randint(0, d), d // 2])) for i in range(1, m + 1)]
        r.shuffle(items)
        if r.random() < .4:
            items = items[:r.randint(0, m)]
        ts = r.sample(range(1, n + 1), r.randint(1, n))
        if r.random() < self.prof.get('perr', .06):
            if r.random() < .5:
                ts.append(0)
            else:
                items.append((0, 1))
        ps = {w.edge('graph', i): p / d for i, p in items}
        if len(ps) != len(items):
            return False
        tl = [w.vert('graph', t) for t in ts]

        def fn():
            v = GraphSet.reliability(ps, tl) * d ** m
            return int(round(v)) if abs(v - round(v)) < 1e-6 else repr(v)
        self.call('graph', 'reliability', [], {'p': [list(t) for t in items], 'd': d, 'ts': ts}, fn, 'num')
        return True

    # -- iterators
    def do_iter(self, c, h):
        r = self.rng
        o = self.objs[h][1]
        n = self.w.size(c)
        kind = r.choice(self.prof.get('iters', ['iter', 'rand', 'min', 'max']))
        x = {'kind': kind, 'given': False, 'w': [], 'df': ONE}
        if kind in ('min', 'max'):
            args, kw = [], {}
            if r.random() < .7 or c == 'ev' and self.w.vcustom:
                vals = r.choice([[0, 1, 2], [1, 1.5, -2, 0.25], [-1, -0.5, 3], [0], [10 ** 6, 1, -10 ** 6],
                                 list(range(-5, 6))])
                items = [(i, r.choice(vals)) for i in self.subset(n, r.choice([.5, 1, 1]))]
                unit = 1                # scaling all weights changes no order
                if len(items) == n and r.random() < .4:
                    unit = 2.0 ** r.choice([-60, -20, 20, 28, 31, 33, 60, 200])
                ws = {self.w.key(c, i): v * unit for i, v in items}
                if len(ws) != len(items):
                    return False
                # an empty assignment leaves every weight at 1
                x.update(given=True, w=[[i, int(v * ONE)] for i, v in items])
                args = [ws]
                if c == 'set' and r.random() < .3:
                    df = r.choice([0, 2, -1, .5])
                    x['df'] = int(df * ONE)
                    kw = {'default': df}
                if c == 'set' and not ws:
                    x['given'] = True
            it = getattr(o, kind + '_iter')(*args, **kw)
        else:
            it = iter(o) if kind == 'iter' else o.rand_iter()
        self.ni += 1
        i = self.ni
        ev = {'t': 'iter', 'a': h, 'i': i, 'x': x}
        self.step(ev, c, it)
        self.iters[i] = (c, it)
        if r.random() < self.prof.get('drain', .7):
            self.drain(i)
        return True

    # -- random iteration: what comes first is equally likely to be any member
    def warm_up(self):
        """The generator's first few values are close to 0."""
        if not getattr(self, 'warm', False):
            self.warm = True
            f = _graphillion.setset([set(), {1}, {2}, {1, 2}])
            for _ in range(60):
                list(f.rand_iter())

    def do_twin(self, c, h):
        """Copies an object (often an empty or full one) and changes one of the two."""
        r = self.rng
        kind = r.choice(['as is', 'empty', 'empty', 'unit', 'clear'])
        if kind == 'clear':
            o = self.objs[h][1]
            self.call(c, 'clear', [h], {}, o.clear, 'none')
        elif kind != 'as is':
            fam = [] if kind == 'empty' else [[]]
            arg = [self.w.wrap(c, list(s)) for s in fam]
            self.call(c, 'new', [], {'t': 'sets', 'e': fam}, lambda: CLS[c](arg), 'fam')
            h = self.nh
        o = self.objs[h][1]
        how = r.choice(['copy', 'copy', 'constructor', 'union', 'intersection', 'difference'])
        if how in ('copy', 'constructor'):
            self.call(c, 'copy', [h], {}, (lambda: o.copy()) if how == 'copy' else (lambda: CLS[c](o)), 'fam')
        else:
            e = r.choice([h, h, self.pick(c)])
            p = self.objs[e][1]
            self.call(c, how, [h, e], {}, lambda: getattr(o, how)(p), 'fam')
        g = r.choice([h, self.nh])
        q = self.objs[g][1]
        if r.random() < .6:
            s = self.fam_ids(c, 1)[0] if c == 'ev' else self.subset(self.w.size(c), .3)
            self.call(c, 'add', [g], {'t': 'set', 'e': s, 'm': 'add'}, lambda: q.add(self.w.pyset(c, s)), 'none')
        else:
            e = self.pick(c)
            p = self.objs[e][1]
            op = r.choice(UPD)
            self.call(c, op, [g, e], {}, lambda: getattr(q, op)(p), 'self?' if c == 'set' else 'self')
        self.audit()
        return True

    def do_draws(self, c, h):
        r = self.rng
        o = self.objs[h][1]
        m = o.len()
        if not 2 <= m <= 12:
            return False
        self.warm_up()
        k = r.choice([1, 2]) if m <= 4 else 1
        if m <= 4 and r.random() < .2:
            k = m
        n = 400 * (m if k == 1 else m * (m - 1) * (m - 2 if k > 2 else 1))
        got = {}
        for _ in range(n):
            it = o.rand_iter()
            seq = json.dumps([self.w.back(c, next(it)) for _ in range(k)])
            got[seq] = got.get(seq, 0) + 1
        self.emit({'t': 'draws', 'a': h, 'len': k, 'n': n,
                   'v': [[json.loads(s), q] for s, q in sorted(got.items())]})
        return True

    def do_distinct(self):
        """One random iterator over a family of thousands to millions: nothing comes twice."""
        r = self.rng
        n = r.randint(12, 22)
        keep, self.prof['set_n'] = self.prof.get('set_n'), [n, n]
        self.universe('set')
        self.prof['set_n'] = keep
        if keep is None:
            del self.prof['set_n']
        ids = r.sample(range(1, 9), 8)
        inc, exc = ids[:r.choice([0, 0, 1])], ids[2:r.choice([2, 2, 3])]
        d = {}
        if inc:
            d['include'] = [self.w.elem('set', i) for i in inc]
        if exc:
            d['exclude'] = [self.w.elem('set', i) for i in exc]
        o = setset(d)
        most = 2 ** n + 1 if n < 14 else 5 * 2 ** (n // 2)
        seen = set()
        k = 0
        it = o.rand_iter()
        end = False
        for k in range(most):
            s = next(it, None)
            if s is None:
                end = True
                break
            seen.add(frozenset(s))
        self.emit({'t': 'distinct', 'inc': inc, 'exc': exc, 'n': k if end else k + 1, 'v': len(seen), 'end': end,
                   'most': most})

    def do_bigdraws(self):
        """Draws from all sets with inc, without exc and meeting hit, counted by blocks of elements."""
        r = self.rng
        big = r.random() < self.prof.get('hugedraws', 0)
        n = r.randint(1060, 1090) if big else r.choice([10, 30, 56, 62, 100])
        keep, self.prof['set_n'] = self.prof.get('set_n'), [n, n]
        self.universe('set')
        self.prof['set_n'] = keep
        if keep is None:
            del self.prof['set_n']
        self.warm_up()
        ids = r.sample(range(1, 9), 8)
        inc, exc, hit = ids[:r.randint(0, 2)], ids[2:r.randint(2, 4)], ids[4:r.choice([4, 5, 6, 7])]
        el = lambda s: [self.w.elem('set', i) for i in s]
        d = {}
        if inc:
            d['include'] = el(inc)
        if exc:
            d['exclude'] = el(exc)
        o = setset(d)
        if hit:
            o = o - setset({'exclude': el(hit)})
        draws = 24 if big else 200
        blocks = [list(range(i, min(i + 16, n + 1))) for i in range(9, n + 1, 16)]
        tally = [0] * len(blocks)
        first = []
        it = o.rand_iter()
        for _ in range(draws):
            if n < 60 or r.random() < .1:   # otherwise it may return a set again
                it = o.rand_iter()
            s = set(self.w.back('set', next(it)))
            first.append(sorted(x for x in s if x < 9))
            for i, b in enumerate(blocks):
                tally[i] += sum(x in s for x in b)
        self.emit({'t': 'bigdraws', 'inc': inc, 'exc': exc, 'hit': hit, 'n': draws, 'v': tally, 'first': first,
                   'blocks': [[b[0], b[-1]] for b in blocks]})

    def step(self, ev, c, it):
        try:
            s = next(it)
            ev['k'], ev['v'] = 'set', self.w.back(c, s)
        except StopIteration:
            ev['k'], ev['v'] = 'stop', 0
        except Exception as e:       # noqa
            ev['k'], ev['v'] = 'exc', type(e).__name__
        self.emit(ev)
        return ev['k'] == 'set'

    def do_next(self, i):
        c, it = self.iters[i]
        return self.step({'t': 'next', 'i': i}, c, it)

    def drain(self, i):
        for _ in range(self.prof.get('drain_max', 300)):
            if not self.do_next(i):
                break
        self.emit({'t': 'dropiter', 'i': i})
        del self.iters[i]

    # -- graph constructors
    def do_graph(self, op, h):
        r = self.rng
        w = self.w
        if not w.E:
            return False
        if op == 'reliability':
            return self.do_rel()
        n, m = w.n, len(w.E)
        V = list(range(1, n + 1))
        gs = self.objs[h][1] if h else None
        kw = {} if gs is None else {'graphset': gs}
        style = r.randrange(2) if gs is not None else 0
        if h and r.random() < self.prof.get('fit', .4):
            self.fit = self.focus('graph', h, op)
        x, args, kws = self.graph_args(op, n, m, V)
        self.fit = None
        if op in ('partitions', 'balanced_partitions', 'induced_graphs', 'weighted_induced_graphs', 'class'):
            if gs is not None:
                return False
            style = 0
        if op == 'class':
            cls = x['cls']
            fn = getattr(GraphClass, CLASSNAMES[cls])
            self.call('graph', op, [], x, lambda: fn(), 'fam')
            return True
        kws.update({} if style else kw)
        f = getattr(GraphSet if style == 0 else gs, op)
        self.call('graph', op, [h] if h else [], x, lambda: f(*args, **kws), 'fam')
        return True

    # -- results too large to list: intersected with candidate sets
    def candidates(self, c, A, extra=()):
        """A new family of members of A, near misses and other sets."""
        r = self.rng
        n = self.w.size(c)
        k = self.prof.get('near', 5)
        got = []
        it = A.rand_iter()
        for _ in range(k):
            s = next(it, None)
            if s is None:
                break
            got.append(self.w.back(c, s))
        for _ in range(k):
            ws = {self.w.elem(c, i, True): r.randint(-9, 9) for i in range(1, n + 1)}
            s = next(A.max_iter(ws), None)
            if s is not None:
                got.append(self.w.back(c, s))
        fam = got + [list(s) for s in extra]
        for s in list(fam):
            for _ in range(2):
                fam.append(sorted(set(s) ^ set(r.sample(range(1, n + 1), min(n, r.choice([1, 1, 1, 2, 2, 3]))))))
        fam += [self.subset(n, r.choice([.1, .3, .6])) for _ in range(3)] + r.choice([[], [[]]])
        if any(0 in s for s in got):   # not the elements of the universe
            fam = [[0]]
        objs = [self.w.wrap(c, set(self.w.elem(c, i) for i in s)) for s in fam]
        self.call(c, 'new', [], {'t': 'sets', 'e': fam}, lambda: CLS[c](objs), 'fam')
        return self.nh

    def do_near(self, c, op):
        keep, self.prof['perr'] = self.prof.get('perr'), 0
        try:
            return self._do_near(c, op)
        finally:
            self.prof['perr'] = keep or 0

    def _do_near(self, c, op):
        r = self.rng
        w = self.w
        if op in GRAPHOPS and c == 'graph':
            n, m = w.n, len(w.E)
            if m > self.prof.get('near_max', {}).get(op, 99):
                return False
            x, args, kws = self.graph_args(op, n, m, list(range(1, n + 1)))
            if op == 'bicliques' and x['k'] != x['k2']:
                return False
            f = getattr(GraphClass, CLASSNAMES[x['cls']]) if op == 'class' else getattr(GraphSet, op)
            hs = []
        elif op in DIOPS and c == 'di':
            x, args, kws = self.di_args(op)
            f, hs = getattr(DiGraphSet, 'graphs' if op == 'digraphs' else op), []
        elif op in VERTOPS and c == 'vset':
            x, args, kws = self.vert_args(op)
            f, hs = getattr(VertexSetSet, 'cliques' if op == 'vcliques' else op), []
        elif op in ('hitting', 'invert', 'constrained', 'forbidden') and c != 'ev':
            h = self.pick(c)
            if h is None or op == 'forbidden' and c != 'graph':
                return False
            o = self.objs[h][1]
            x, args, kws, hs = {}, [], {}, [h]
            if op == 'constrained':
                n = w.size(c)
                inc = self.subset(n, r.choice([.02, .1]))
                exc = [i for i in self.subset(n, r.choice([.02, .3])) if i not in inc]
                x, hs = {'inc': inc, 'exc': exc}, []
                f = lambda: CLS[c]({'include': w.pyset(c, inc, edges=True), 'exclude': w.pyset(c, exc, edges=True)})
            elif op == 'forbidden':
                f = lambda: GraphSet.forbidden_induced_subgraphs(o)
            else:
                f = (lambda: ~o) if op == 'invert' else getattr(o, 'hitting' if c == 'set' else 'blocking')
        else:
            return False
        A = f(*args, **kws)
        if op in DIOPS and A is None:
            return False
        extra = [self.members(c, self.objs[h][1], 'iter')[:6] for h in hs]
        h = self.candidates(c, A, sum(extra, []))
        gs = self.objs[h][1]
        x = dict(x, near=True)
        way = r.randrange(2)
        if op in GRAPHOPS | DIOPS | VERTOPS:
            self.call(c, op, [h], x, lambda: A & gs if way else gs & A, 'fam')
        else:
            self.call(c, 'near_' + op, [h] + hs, x, lambda: A & gs if way else gs & A, 'fam')
        return True

    def rangearg(self, lo_max, m):
        """(allowed values, python argument); no value is larger than m."""
        r = self.rng
        if r.random() < .15:
            big = r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 70]) + r.randint(-1, 3)
            a, st = r.randint(0, lo_max), r.choice([1, 1, 1, 2, big])
            rg = r.choice([lambda: range(a, big, st), lambda: range(lo_max, a - 1, -min(st, 3)),
                           lambda: range(-a, lo_max + 1, st), lambda: range(a, a), lambda: big])()
            if rg == big:
                return [], rg
            return [k for k in range(m + 1) if k in rg], rg
        k = r.randrange(4)
        a = r.randint(0, lo_max)
        if k == 0:
            return [a], a
        if k == 1:
            return [a], range(a, a + 1)
        b = r.randint(a, lo_max + 1)
        st = r.choice([1, 1, 2, 3])
        rg = range(a, b + 1, st)
        if len(rg) == 0:
            rg = range(a, a + 1)
        return list(rg), rg

    def graph_args(self, op, n, m, V):
        r = self.rng
        w = self.w
        lab = lambda v: w.vert('graph', v)
        err = r.random() < self.prof.get('perr', .06)
        if self.fit:
            got = self.focus_args(op, self.fit, n, m, V, lab)
            if got:
                return got
        if self.prof.get('long') and (op in ('graphs', 'partitions', 'balanced_partitions') or r.random() < .8):
            got = self.long_args(op, n, m, V, lab)
            if got:
                return got
        if op == 'graphs':
            x = {'vg': [], 'dc': [], 'ne': [], 'nl': False, 'lc': [], 'badlc': False}
            kws = {}
            if r.random() < .6:
                vs = V[:]
                r.shuffle(vs)
                for _ in range(r.randint(1, 3)):
                    k = r.choice([0, 1, 2, 2, 3])
                    x['vg'].append(vs[:k])
                    vs = vs[k:]
                if r.random() < .2:
                    x['vg'] = [[] for _ in range(r.randint(1, 3))]
                if err and r.random() < .5:
                    x['vg'][0] = x['vg'][0] + [0]
                kws['vertex_groups'] = [[lab(v) for v in g] for g in x['vg']]
            if r.random() < .5:
                kws['degree_constraints'] = {}
                for v in V:
                    if r.random() < .5:
                        allowed, a = self.rangearg(3, m)
                        x['dc'].append([v, allowed])
                        kws['degree_constraints'][w.vert('graph', v)] = a
                if err and r.random() < .5:
                    x['dc'].append([0, [1]])
                    kws['degree_constraints'][lab(0)] = 1
            if r.random() < .3:
                allowed, a = self.rangearg(m, m)
                x['ne'] = [allowed]
                kws['num_edges'] = a
            if r.random() < .35:
                x['nl'] = True
                kws['no_loop'] = True
            if r.random() < .3:
                kws['linear_constraints'] = []
                for _ in range(r.randint(1, 2)):
                    ws = [0] * m
                    expr = []
                    for i in self.subset(m, .6):
                        q = r.choice([None, 1, 2, -1, 3, .5, -2.25, 0, 100])
                        ws[i - 1] = int((1 if q is None else q) * ONE)
                        u, v = w.E[i - 1][:2]
                        if r.random() < .4:
                            u, v = v, u
                        expr.append((u, v) if q is None else (u, v, q))
                    lo = r.choice([-3, 0, 1, 2, -100, .5])
                    hi = lo + r.choice([0, 1, 2, 4, 200, 1.25])
                    x['lc'].append([ws, int(lo * ONE), int(hi * ONE)])
                    kws['linear_constraints'].append((expr, (lo, hi)))
                if err:
                    ix = {v: i + 1 for i, v in enumerate(w.vlab)}
                    E = {frozenset((ix[e[0]], ix[e[1]])) for e in w.E}
                    no = [(lab(u), lab(v)) for u in V for v in V
                          if u != v and frozenset((u, v)) not in E] + [(lab(V[0]), lab(0))]
                    kws['linear_constraints'][0][0].insert(0, r.choice(no))
                    x['badlc'] = True
            return x, [], kws
        if op in ('connected_components', 'steiner_subgraphs', 'steiner_trees', 'steiner_cycles',
                  'steiner_paths'):
            k = r.choice([1, 2, 2, 3]) if op != 'connected_components' else r.choice([0, 1, 2, 3])
            if op == 'steiner_cycles':     # of one terminal: left open
                k = max(k, 2)
            vs = r.sample(V, min(k, n))
            if err:
                vs = vs + [0]
            return {'vs': vs}, [[lab(v) for v in vs]], {}
        if op == 'trees':
            root = r.choice([0, r.choice(V)])
            sp = r.random() < .4
            kws = {}
            if root or r.random() < .3:
                kws['root'] = lab(root) if root else None
            if err:
                root = n + 1
                kws['root'] = lab(0)
            if sp or r.random() < .3:
                kws['is_spanning'] = sp
            return {'root': root, 'sp': sp}, [], kws
        if op == 'forests':
            vs = r.sample(V, r.randint(1, min(3, n)))
            if err:
                vs = vs + [0]
            sp = r.random() < .4
            return {'vs': vs, 'sp': sp}, [[lab(v) for v in vs]], {'is_spanning': sp} if sp else {}
        if op == 'cycles':
            sp = r.random() < .3
            return {'sp': sp}, [], {'is_hamilton': sp} if sp or r.random() < .3 else {}
        if op == 'paths':
            vs = r.sample(V, r.choice([0, 1, 2, 2]))
            sp = r.random() < .35
            return {'vs': vs, 'sp': sp}, [lab(v) for v in vs], \
                {'is_hamilton': sp} if sp or r.random() < .3 else {}
        if op in ('matchings', 'perfect_matchings', 'letter_P_graphs', 'induced_graphs'):
            return {}, [], {}
        if op in ('k_matchings', 'k_factors'):
            k = r.randint(0, 3)
            return {'k': k}, [k], {}
        if op in ('b_matchings', 'f_factors'):
            items = [[v, r.randint(0, 3)] for v in V if r.random() < .8]
            return {'b': items}, [{lab(v): k for v, k in items}], {}
        if op == 'cliques':
            k = r.randint(2, 5)
            return {'k': k}, [k], {}
        if op == 'bicliques':
            k = r.randint(1, 3)
            k2 = r.randint(1, 3) if r.random() < .1 else k
            return {'k': k, 'k2': k2}, [k, k2], {}
        if op in ('regular_graphs', 'regular_bipartite_graphs'):
            k = r.randrange(3)
            co = r.random() < .5
            kws = {} if co and r.random() < .5 else {'is_connected': co}
            if k == 0:
                lo, hi = 1, n
                if r.random() < .5:
                    kws['degree'] = None
            elif k == 1:
                lo = hi = r.randint(1, 3)
                kws['degree'] = lo
            else:
                lo = r.randint(1, 3)
                hi = lo + r.randint(0, 2)
                kws['degree'] = (lo, hi)
            return {'lo': lo, 'hi': hi, 'co': co}, [], kws
        if op == 'bipartite_graphs':
            co = r.random() < .5
            return {'co': co}, [], {} if co and r.random() < .5 else {'is_connected': co}
        if op == 'degree_distribution_graphs':
            co = r.random() < .5
            top = r.randint(1, 4)
            dd, d = [], {}
            for k in range(top + 1):
                q = r.choice([-1, -1, 0, 1, 2, 2, 3])
                if k == 0 and r.random() < .6:
                    q = -1
                dd.append(q)
                if q != 0 or k == top or r.random() < .5:
                    d[k] = q
            if r.random() < .04:
                dd, d = [0], {}
            return {'dd': dd, 'co': co}, [d, co], {}
        if op == 'partitions':
            lo = r.randint(1, n)
            hi = r.choice([lo, lo + 1, n, n + 2])
            kws = {}
            if lo == 1 and r.random() < .4:
                if r.random() < .5:
                    hi = 32767
                else:
                    kws['num_comp_ub'] = hi
            else:
                kws = {'num_comp_lb': lo, 'num_comp_ub': hi}
            if not kws:
                hi = 32767
            return {'lo': lo, 'hi': hi}, [], kws
        if op in ('balanced_partitions', 'weighted_induced_graphs'):
            kws = {}
            items = []
            wv = [1] * n
            if r.random() < .7:
                items = [[v, r.choice([0, 1, 1, 2, 3, 5, 10])] for v in V if r.random() < .9]
                for v, k in items:
                    wv[v - 1] = k
                kws['weight_list'] = {lab(v): k for v, k in items}
                if err:
                    items = items + [[0, 1]]
                    kws['weight_list'][lab(0)] = 1
            tot = sum(wv)
            x = {'w': items, 'num': 0, 'den': 1, 'lo': 0, 'hi': 2 ** 30, 'nc': -1}
            if r.random() < .5:
                x['lo'] = kws['lower'] = r.randint(0, tot)
            if r.random() < .5:
                x['hi'] = kws['upper'] = r.randint(max(1, x['lo']), tot + 1)
            if op == 'balanced_partitions':
                if r.random() < .4:
                    x['nc'] = kws['num_comps'] = r.randint(1, n)
                if r.random() < .5:
                    x['num'], x['den'] = r.choice([(1, 1), (3, 2), (2, 1), (5, 4), (3, 1), (9, 8)])
                    kws['ratio'] = x['num'] / x['den']
            if r.random() < .2 and not err:
                self.large_weights(x, kws, V, op)
            return x, [], kws
        if op == 'class':
            return {'cls': r.choice(sorted(CLASSNAMES))}, [], {}
        raise ValueError(op)

    def large_weights(self, x, kws, V, op):
        """Weights a * B + d beyond 2^30, recorded as a * 1000 + d: their sums compare alike."""
        r = self.rng
        B = r.choice([2 ** 30 + 77, 2 ** 31 - 1, 2 ** 31, 3 * 10 ** 9, 2 ** 32 - 30, r.randint(2 ** 30 + 1, 2 ** 32 - 9)])
        def num(a, d):
            return a * B + d
        top = (2 ** 32 - 1) // B
        ws = {v: (r.choice([0, 1, 1, top]), 0 if x['num'] else r.choice([0, 0, 1, 3])) for v in V}
        ws = {v: (a, d) if num(a, d) < 2 ** 32 else (a, 0) for v, (a, d) in ws.items()}
        x['w'] = [[v, a * 1000 + d] for v, (a, d) in ws.items()]
        kws['weight_list'] = {self.w.vlab[v - 1]: num(a, d) for v, (a, d) in ws.items()}
        kws.pop('lower', 0)
        kws.pop('upper', 0)
        x['lo'], x['hi'] = 0, 500      # the default is less than B
        ends = []
        for _ in range(2):
            some = [v for v in V if r.random() < .6]
            a, d = sum(ws[v][0] for v in some), sum(ws[v][1] for v in some) + r.choice([-1, 0, 0, 0, 1])
            ends.append((a * 1000 + d, num(a, d)))
        ends.sort()
        if r.random() < .5 and ends[0][1] >= 0:
            x['lo'], kws['lower'] = ends[0]
        if x['lo'] or r.random() < .7 or op == 'weighted_induced_graphs' and B < 2 ** 31:
            x['hi'], kws['upper'] = ends[1]
            if ends[1][1] < 0:
                x['hi'], kws['upper'] = 1, 1

    # -- families of plausible subgraphs, and arguments that fit one of them
    def plants(self, c, k):
        r = self.rng
        w = self.w
        lab, E = (w.dlab, w.D) if c == 'di' else (w.vlab, w.E)
        at = {v: i + 1 for i, v in enumerate(lab)}
        E = [(at[e[0]], at[e[1]]) for e in E]
        out = {}
        for i, (u, v) in enumerate(E):
            out.setdefault(u, []).append((v, i + 1))
            if c != 'di':
                out.setdefault(v, []).append((u, i + 1))
        fam = []
        for _ in range(k):
            kind = r.choice(['tree', 'tree', 'star', 'path', 'path', 'cycle', 'match', 'all', 'forest', 'some', 'two'])
            fam.append(self.plant(c, kind, E, out))
        for s in list(fam):
            if r.random() < .4:
                fam.append(sorted(set(s) ^ set(r.sample(range(1, len(E) + 1), min(len(E), r.choice([1, 1, 2]))))))
        return fam

    def plant(self, c, kind, E, out):
        r = self.rng
        m = len(E)
        if kind == 'two':
            ks = r.sample(['tree', 'star', 'path', 'cycle', 'match', 'some'], 2)
            return sorted(set(self.plant(c, ks[0], E, out)) | set(self.plant(c, ks[1], E, out)))
        if kind == 'all':
            return sorted(set(range(1, m + 1)) - set(r.sample(range(1, m + 1), r.choice([0, 0, 1, 2]) if m > 2 else 0)))
        if kind == 'some':
            return self.subset(m, r.choice([.02, .3, .9]))
        if kind == 'star':
            v = max(out, key=lambda v: (len(out[v]), r.random())) if r.random() < .7 else r.choice(sorted(out))
            es = [i for _, i in out[v]]
            return sorted(es if r.random() < .5 else r.sample(es, max(1, len(es) - r.choice([1, 2, len(es) // 2]))))
        if kind in ('match', 'forest'):
            best = {}

            def root(v):
                while best.get(v, v) != v:
                    v = best[v]
                return v
            got, used = [], set()
            for i in r.sample(range(1, m + 1), m):
                u, v = E[i - 1]
                if kind == 'match' and not {u, v} & used or kind == 'forest' and root(u) != root(v):
                    used |= {u, v}
                    best[root(u)] = root(v)
                    got.append(i)
            return sorted(got[:r.choice([len(got), len(got), max(1, len(got) // 2), 3])])
        v = r.choice(sorted(out))
        if r.random() < .4:
            v = max(out, key=lambda v: len(out[v]))
        seen, walk, got = {v: 0}, [v], []
        if kind == 'tree':
            lim = r.choice([m, m, m // 2, 3])
            edge = list(out[v])
            while edge and len(got) < lim:
                u, i = edge.pop(r.choice([-1, r.randrange(len(edge))]))
                if u in seen:
                    continue
                seen[u] = 0
                got.append(i)
                edge += out.get(u, [])
            return sorted(got)
        best = []
        for _ in range(6):                # a walk; for a cycle until it closes
            v = r.choice(sorted(out))
            seen, got = {v: 0}, []
            while True:
                es = [(u, i) for u, i in out.get(v, []) if i not in got[-1:] and (kind == 'cycle' or u not in seen)]
                if not es:
                    break
                u, i = r.choice(es)
                if u in seen:
                    got = got[seen[u]:] + [i]
                    return sorted(set(got))
                got.append(i)
                seen[u] = len(got)
                v = u
            if kind == 'path' and len(got) > len(best):
                best = got
        return sorted(best[r.choice([0, 0, len(best) // 3]):])

    def focus(self, c, h, op):
        """What a member of the family looks like; if possible, of the kind
        that op looks for."""
        r = self.rng
        ms = self.members(c, self.objs[h][1], 'iter')
        if not ms or r.random() < .1:
            return None
        fs = [self.features(c, X) for X in r.sample(ms, min(len(ms), 12))]
        one = lambda f: len(f['comps']) == 1
        degs = lambda f: set(f['deg'].values()) - {0}
        line = lambda f: one(f) and f['acyclic'] and degs(f) <= {1, 2}
        ring = lambda f: one(f) and degs(f) == {2}
        di = lambda f: max(f['in'].values()) < 2
        like = {'steiner_trees': lambda f: one(f) and f['acyclic'], 'steiner_subgraphs': one, 'connected_components': one,
                'trees': lambda f: one(f) and f['acyclic'], 'forests': lambda f: f['acyclic'],
                'cycles': ring, 'steiner_cycles': ring, 'paths': line, 'steiner_paths': line,
                'matchings': lambda f: degs(f) == {1}, 'perfect_matchings': lambda f: set(f['deg'].values()) == {1},
                'regular_graphs': lambda f: len(degs(f)) == 1, 'regular_bipartite_graphs': lambda f: len(degs(f)) == 1,
                'bipartite_graphs': lambda f: f['acyclic'], 'k_factors': lambda f: len(set(f['deg'].values())) == 1,
                'directed_cycles': lambda f: ring(f) and di(f), 'directed_hamiltonian_cycles': lambda f: ring(f) and di(f),
                'directed_st_paths': lambda f: line(f) and di(f), 'rooted_trees': lambda f: one(f) and f['acyclic'] and di(f),
                'rooted_forests': lambda f: f['acyclic'] and di(f)}.get(op)
        if like and r.random() < .8:
            fs = [f for f in fs if f['X'] and like(f)] or fs
        return fs[0]

    def features(self, c, X):
        w = self.w
        lab, E = (w.dlab, w.D) if c == 'di' else (w.vlab, w.E)
        at = {v: i + 1 for i, v in enumerate(lab)}
        E = {i: (at[E[i - 1][0]], at[E[i - 1][1]]) for i in X if i}
        deg = {v: 0 for v in range(1, len(lab) + 1)}
        ind = dict(deg)
        comp = {}
        for u, v in E.values():
            deg[u] += 1
            deg[v] += 1
            ind[v] += 1
            a, b = comp.get(u, {u}), comp.get(v, {v})
            if a is not b:
                a = a | b
                for y in a:
                    comp[y] = a
        comps = sorted(set(tuple(sorted(q)) for q in comp.values()))
        return {'X': sorted(E), 'deg': deg, 'in': ind, 'comps': comps,
                'acyclic': len(E) == sum(len(q) - 1 for q in comps)}

    def focus_args(self, op, f, n, m, V, lab):
        """Arguments for which a known set is an answer, or nearly is."""
        r = self.rng
        deg, comps, size = f['deg'], f['comps'], len(f['X'])
        used = [v for v in V if deg[v]]
        nudge = lambda k, lo=0: max(lo, k + (0 if r.random() < .75 else r.choice([-1, 1, -2, 2])))

        def around(k, top):
            a = max(0, k - r.choice([0, 0, 1, 2])) if r.random() < .8 else k + 1
            b = max(a, k + r.choice([0, 0, 1, 3])) if r.random() < .8 else a
            return list(range(a, b + 1)), a if a == b and r.random() < .5 else range(a, b + 1)
        if op == 'graphs':
            x = {'vg': [], 'dc': [], 'ne': [], 'nl': False, 'lc': [], 'badlc': False}
            kws = {}
            if r.random() < .7:
                free = 0
                for q in comps:
                    if r.random() < .5 and len(x['vg']) < 20:
                        x['vg'].append(r.sample(q, min(len(q), r.choice([1, 2, 3, len(q)]))))
                    else:
                        free += 1
                if r.random() < .3:
                    x['vg'] += [[v] for v in V if not deg[v]][:3]
                x['vg'] += [[] for _ in range(nudge(free))]
                r.shuffle(x['vg'])
                if x['vg']:
                    kws['vertex_groups'] = [[lab(v) for v in g] for g in x['vg']]
            if r.random() < .5:
                kws['degree_constraints'] = {}
                for v in r.sample(V, r.choice([1, min(n, 4), n // 2, n])):
                    al, a = around(deg[v], n)
                    x['dc'].append([v, al])
                    kws['degree_constraints'][lab(v)] = a
            if r.random() < .4:
                al, a = around(size, m)
                x['ne'] = [al]
                kws['num_edges'] = a
            if r.random() < (.4 if f['acyclic'] else .1):
                x['nl'] = kws['no_loop'] = True
            if r.random() < .3:
                ws = [int(r.choice([1, 1, 2, -1, .5]) * ONE) for _ in range(m)]
                t = sum(ws[i - 1] for i in f['X'])
                lo, hi = t - r.choice([0, 0, 4, ONE]), t + r.choice([0, 0, 4, ONE])
                x['lc'].append([ws, lo, hi])
                kws['linear_constraints'] = [([e[:2] + (q / ONE,) for e, q in zip(self.w.E, ws)], (lo / ONE, hi / ONE))]
            return x, [], kws
        if op in ('connected_components', 'steiner_subgraphs', 'steiner_trees', 'steiner_paths', 'steiner_cycles'):
            vs = r.sample(used, min(len(used), r.choice([2, 3, len(used)])))
            if r.random() < .15:
                vs = r.sample(V, min(n, 2))
            return ({'vs': vs}, [[lab(v) for v in vs]], {}) if len(vs) > 1 else None
        if op == 'trees':
            root = r.choice([0] + used[:1] + [r.choice(V)])
            sp = r.random() < .3
            return {'root': root, 'sp': sp}, [], {'root': lab(root) if root else None, 'is_spanning': sp}
        if op == 'forests':
            vs = [r.choice(q) for q in comps if r.random() < .95]
            sp = r.random() < .5
            if sp and r.random() < .8:
                vs += [v for v in V if not deg[v]]
            return ({'vs': vs, 'sp': sp}, [[lab(v) for v in vs]], {'is_spanning': sp}) if vs else None
        if op == 'paths':
            vs = [v for v in V if deg[v] == 1][:2]
            vs = r.choice([vs, vs, vs[:1], []])
            sp = r.random() < (.5 if len(used) == n else .1)
            return {'vs': vs, 'sp': sp}, [lab(v) for v in vs], {'is_hamilton': sp}
        if op in ('k_matchings', 'k_factors'):
            k = nudge(max(deg.values()) if r.random() < .7 else min(deg.values()))
            return {'k': k}, [k], {}
        if op in ('b_matchings', 'f_factors'):
            items = [[v, nudge(deg[v]) if r.random() < .05 else deg[v]] for v in V if deg[v] or r.random() < .5]
            return {'b': items}, [{lab(v): k for v, k in items}], {}
        if op == 'cliques':
            return {'k': max(2, len(used))}, [max(2, len(used))], {}
        if op == 'bicliques':
            k = max(1, len(used) // 2)
            return {'k': k, 'k2': k}, [k, k], {}
        if op in ('regular_graphs', 'regular_bipartite_graphs'):
            co = r.random() < .6
            a = nudge(max(deg.values()), 1)
            b = r.choice([a, a, a + 1, n])
            if b < a:
                b = a
            return {'lo': a, 'hi': b, 'co': co}, [], {'degree': (a, b), 'is_connected': co}
        if op == 'degree_distribution_graphs':
            co = r.random() < .6
            dd = [0] * (max(deg.values()) + 1)
            for v in V:
                dd[deg[v]] += 1
            for _ in range(r.choice([0, 0, 1, 2])):
                dd[r.randrange(len(dd))] = -1
            if r.random() < .2:
                i = r.randrange(len(dd))
                dd[i] = max(0, dd[i] + r.choice([-1, 1]))
            return {'dd': dd, 'co': co}, [{i: q for i, q in enumerate(dd) if q or i == len(dd) - 1}, co], {}
        return None

    def focus_di(self, op, f):
        r = self.rng
        V = list(range(1, self.w.dn + 1))
        lab = lambda v: self.w.vert('di', v)
        deg, ind = f['deg'], f['in']
        outd = {v: deg[v] - ind[v] for v in V}
        used = [v for v in V if deg[v]]
        roots = [v for v in used if not ind[v]]
        ends = [v for v in used if not outd[v]]
        sp = r.random() < (.6 if len(used) == len(V) else .1)
        if op == 'directed_st_paths':
            if roots and ends:
                s, t = r.choice(roots), r.choice(ends)
                return {'s': s, 'e': t, 'sp': sp}, [lab(s), lab(t)], {'is_hamiltonian': sp}
        elif op == 'rooted_forests':
            return {'vs': roots, 'sp': sp}, [], {'roots': [lab(v) for v in roots], 'is_spanning': sp}
        elif op == 'rooted_trees':
            if roots:
                v = r.choice(roots)
                return {'root': v, 'sp': sp}, [lab(v)], {'is_spanning': sp}
        elif op == 'digraphs':
            x, kws = {'ic': [], 'oc': []}, {}
            for key, name, d in (('ic', 'in_degree_constraints', ind), ('oc', 'out_degree_constraints', outd)):
                kws[name] = {}
                for v in r.sample(V, r.choice([1, len(V) // 2, len(V)])):
                    a = d[v] if r.random() < .95 else d[v] + 1
                    b = a + r.choice([0, 0, 1, 3])
                    x[key].append([v, list(range(a, b + 1))])
                    kws[name][lab(v)] = a if a == b and r.random() < .5 else range(a, b + 1)
            return x, [], kws
        return None

    def edge_of(self, k):
        """A number that is small, or close to k."""
        r = self.rng
        return max(0, r.choice([0, 1, 2, 3, k, k, k - 1, k - 2, k - 3, k - 4, k // 2]))

    def long_args(self, op, n, m, V, lab):
        """Arguments of a long narrow graph: counts close to its size."""
        r = self.rng
        deg = {v: 0 for v in V}
        for e in self.w.E:
            for v in e[:2]:
                deg[self.w.vlab.index(v) + 1] += 1
        some = lambda: r.sample(V, max(1, min(n, self.edge_of(n))))
        if op == 'graphs':
            x = {'vg': [], 'dc': [], 'ne': [], 'nl': False, 'lc': [], 'badlc': False}
            kws = {}
            k = r.choice([0, 1, 2, 3, 4, 5] + ([3, 3, 3, 3] if self.kind in ('star', 'fan') else []))
            if k == 0:                 # a number of components
                c = r.choice([m, m // 2, m // 2 + 1, m // 3, m // 4, 1, 2, m - 1, m - 2])
                x['vg'] = [[] for _ in range(max(1, c))]
                if r.random() < .3:
                    vs = r.sample(V, min(n, r.choice([1, 2, 3])))
                    x['vg'].insert(r.randint(0, len(x['vg'])), vs)
            elif k == 1 and self.kind in ('longpath', 'star', 'pairs', 'comb'):   # many vertices in a group, or many groups
                vs = some()
                if r.random() < .5:
                    x['vg'] = [vs]
                else:
                    x['vg'] = [[v] for v in vs[:140]]
            if x['vg']:
                kws['vertex_groups'] = [[lab(v) for v in g] for g in x['vg']]
            if k == 2 or r.random() < .3:
                a = self.edge_of(m)
                x['ne'] = [list(range(a, min(m, a + r.choice([0, 0, 1, 2])) + 1))]
                kws['num_edges'] = range(x['ne'][0][0], x['ne'][0][-1] + 1)
            if k in (3, 4) or r.random() < .2:
                kws['degree_constraints'] = {}
                q = r.choice([.1, .5, .95])
                plan = None
                if r.random() < .8:    # around the degrees of some subgraph
                    p = r.choice([.1, .5, .9, .98, 1, 1])
                    plan = {v: 0 for v in V}
                    took = [e for e in self.w.E if r.random() <= p]
                    if x['ne'] and r.random() < .8:
                        x['ne'] = [[len(took)]]
                        kws['num_edges'] = len(took)
                    for e in took:
                        for v in e[:2]:
                            plan[self.w.vlab.index(v) + 1] += 1
                for v in V:
                    if r.random() < q or deg[v] > 9:
                        a = self.edge_of(deg[v])
                        b = r.choice([a, a + 1, a + 2, deg[v], n])
                        if plan:
                            a = max(0, plan[v] - r.choice([0, 0, 1, 2, 5]))
                            b = plan[v] + r.choice([0, 0, 1, 2])
                        st = r.choice([1, 1, 2])
                        al = list(range(a, max(a, b) + 1, st))
                        x['dc'].append([v, al])
                        kws['degree_constraints'][lab(v)] = a if len(al) == 1 else range(a, max(a, b) + 1, st)
            if k == 5:                 # all edges in one linear constraint
                ws = [int(r.choice([1, 1, 1, 2]) * ONE)] * m
                lo = r.choice([0, self.edge_of(m)]) * ws[0] // ONE
                hi = lo + r.choice([0, 1, 2])
                es = [e[:2] for e in self.w.E]
                x['lc'].append([ws, lo * ONE, hi * ONE])
                kws['linear_constraints'] = [([e if ws[0] == ONE else e + (2,) for e in es], (lo, hi))]
            if r.random() < .35:
                x['nl'] = True
                kws['no_loop'] = True
            return x, [], kws
        if op in ('connected_components', 'steiner_subgraphs', 'steiner_trees', 'steiner_paths', 'steiner_cycles'):
            vs = r.sample(V, max(2, min(n, self.edge_of(n))))
            if op in ('steiner_paths', 'steiner_cycles') and r.random() < .6:
                vs = [v for v in vs if deg[v] < 3][:140] or V[:1]
            if len(vs) > 1:
                return {'vs': vs}, [[lab(v) for v in vs]], {}
        if op == 'forests':
            vs, sp = some(), r.random() < .4
            return {'vs': vs, 'sp': sp}, [[lab(v) for v in vs]], {'is_spanning': sp} if sp else {}
        if op in ('k_matchings', 'k_factors'):
            k = self.edge_of(max(deg.values()))
            return {'k': k}, [k], {}
        if op in ('b_matchings', 'f_factors'):
            d = [deg[v] if r.random() < .95 or deg[v] > 9 else 0 for v in V]
            items = [[v, max(0, k - (r.choice([0, 1, 2]) if k > 9 or r.random() < .03 else 0))] for v, k in zip(V, d)]
            if op == 'b_matchings':
                items = [[v, self.edge_of(k)] for v, k in items]
            return {'b': items}, [{lab(v): k for v, k in items}], {}
        if op in ('regular_graphs', 'regular_bipartite_graphs'):
            co = r.random() < .5
            a = max(1, self.edge_of(max(deg.values())))
            b = r.choice([a, a + 1, n])
            return {'lo': a, 'hi': b, 'co': co}, [], {'degree': (a, b), 'is_connected': co}
        if op == 'degree_distribution_graphs':
            co = r.random() < .5
            # close to the distribution of some subgraph
            X = [e[:2] for e in self.w.E]
            k = r.randrange(3)
            if k == 0:
                a = r.randint(0, m - 1)
                X = X[a:a + max(1, self.edge_of(m))]
            elif k == 1:
                X = [e for i, e in enumerate(X) if i not in set(r.sample(range(m), min(m, 2)))]
            d = {v: 0 for v in V}
            for e in X:
                for v in e:
                    d[self.w.vlab.index(v) + 1] += 1
            dd = [0] * (max(d.values()) + 1)
            for v in V:
                dd[d[v]] += 1
            if r.random() < .6:
                dd[r.randrange(len(dd))] = -1
            if r.random() < .2:
                i = r.randrange(len(dd))
                dd[i] = max(0, dd[i] + r.choice([-1, 1]))
            return {'dd': dd, 'co': co}, [{i: q for i, q in enumerate(dd) if q or i == len(dd) - 1}, co], {}
        if op == 'partitions':
            lo = max(1, self.edge_of(n))
            hi = r.choice([lo, lo + 1, lo + 2])
            return {'lo': lo, 'hi': hi}, [], {'num_comp_lb': lo, 'num_comp_ub': hi}
        if op in ('balanced_partitions', 'weighted_induced_graphs'):
            x = {'w': [], 'num': 0, 'den': 1, 'lo': 0, 'hi': 2 ** 30, 'nc': -1}
            kws = {}
            k = r.choice([1, 1, 2])
            if k > 1:
                x['w'] = [[v, k] for v in V]
                kws['weight_list'] = {lab(v): k for v in V}
            if op == 'balanced_partitions':
                if r.random() < .5:
                    x['nc'] = kws['num_comps'] = max(1, self.edge_of(n))
                else:
                    x['lo'] = kws['lower'] = max(1, k * self.edge_of(n))
                    x['hi'] = kws['upper'] = x['lo'] + r.choice([0, k, 2 * k])
                if r.random() < .3:
                    x['num'], x['den'] = r.choice([(1, 1), (2, 1)])
                    kws['ratio'] = x['num'] / x['den']
            else:
                x['lo'] = kws['lower'] = k * self.edge_of(n)
                x['hi'] = kws['upper'] = x['lo'] + r.choice([0, k, 2 * k])
            return x, [], kws
        return None

    def di_args(self, op):
        r = self.rng
        w = self.w
        V = list(range(1, w.dn + 1))
        kws = {}
        lab = lambda v: w.vert('di', v)
        args, x = [], {}
        err = r.random() < self.prof.get('perr', .06) / 2
        if op == 'directed_st_paths':
            s, t = r.sample(V, 2)
            x = {'s': s, 'e': t, 'sp': r.random() < .3}
            if err:
                x[r.choice('se')] = 0
            args = [lab(x['s']), lab(x['e'])]
            if x['sp'] or r.random() < .3:
                kws['is_hamiltonian'] = x['sp']
        elif op == 'rooted_forests':
            k = r.choice([0, 0, 1, 1, min(2, len(V))])
            if self.prof.get('long'):
                k = min(len(V), self.edge_of(len(V) // r.choice([1, 2, 2, 3])))
            x = {'vs': r.sample(V, k) + [0] * err, 'sp': r.random() < .3}
            if x['vs'] or r.random() < .5:
                kws['roots'] = [lab(v) for v in x['vs']]
            if x['sp'] or r.random() < .3:
                kws['is_spanning'] = x['sp']
        elif op == 'rooted_trees':
            x = {'root': 0 if err else r.choice(V), 'sp': r.random() < .3}
            args = [lab(x['root'])]
            if x['sp'] or r.random() < .3:
                kws['is_spanning'] = x['sp']
        elif op == 'digraphs':
            x = {'ic': [], 'oc': []}
            for key, name in (('ic', 'in_degree_constraints'), ('oc', 'out_degree_constraints')):
                if r.random() < .7:
                    kws[name] = {}
                    for v in V:
                        if r.random() < .6:
                            allowed, a = self.rangearg(2, len(w.D))
                            if self.prof.get('long'):
                                d = sum(e[name[0] == 'i'] == w.dlab[v - 1] for e in w.D)
                                b = self.edge_of(d)
                                a = range(b, max(b, d) + 1) if r.random() < .9 else b
                                allowed = [b] if a == b else list(a)
                            x[key].append([v, allowed])
                            kws[name][lab(v)] = a
                    if r.random() < self.prof.get('perr', .06) / 2:
                        x[key].append([0, [1]])
                        kws[name][lab(0)] = 1
        return x, args, kws

    def do_di(self, op, h):
        r = self.rng
        w = self.w
        if not w.D:
            return False
        f = self.focus('di', h, op) if h and r.random() < self.prof.get('fit', .4) else None
        x, args, kws = f and self.focus_di(op, f) or self.di_args(op)
        gs = self.objs[h][1] if h else None
        style = r.randrange(2) if gs is not None else 0
        m = 'graphs' if op == 'digraphs' else op
        if gs is not None and not style:
            kws['graphset'] = gs
        f = getattr(gs if style else DiGraphSet, m)
        self.call('di', op, [h] if h else [], x, lambda: f(*args, **kws), 'fam')
        return True

    def vert_args(self, op):
        r = self.rng
        w = self.w
        n = w.vn
        V = list(range(1, n + 1))
        pool = [(u, v) for u in V for v in V if u < v]
        if not w.vcustom and w.E and r.random() < .6:
            h = [[w.vlab.index(u) + 1, w.vlab.index(v) + 1] for u, v in [e[:2] for e in w.E]]
        else:
            h = [list(e) for e in r.sample(pool, r.randint(0, min(len(pool), 40)))]
            if self.prof.get('long'):
                q = r.choice([1, 2, 3])
                h = [[v, u] for v in V for u in V if 0 < u - v <= q and r.random() < .8]
        x = {'h': h, 'k': 1}
        h2 = h + [[0, 1]] if r.random() < self.prof.get('perr', .06) / 2 else h
        x['h'] = h2
        edges = [(w.elem('vset', a), w.elem('vset', b)) for a, b in h2]
        args = [edges]
        if op in ('independent_sets', 'dominating_sets'):
            x['k'] = r.choice([1, 1, 2, 2, 3, n if n < 60 else min(n, 4)])
            if x['k'] > 1 or r.random() < .3:
                args.append(x['k'])
        return x, args, {}

    def do_vert(self, op):
        if not self.w.vn:
            return False
        x, args, kws = self.vert_args(op)
        f = getattr(VertexSetSet, 'cliques' if op == 'vcliques' else op)
        self.call('vset', op, [], x, lambda: f(*args), 'fam')
        return True

    # -- other actions
    def audit(self, hs=None):
        self.emit({'t': 'audit', 'fams': [[h, self.members(c, o)] for h, (c, o) in self.objs.items()]})

    def drop(self, k):
        hs = self.rng.sample(sorted(self.objs), min(k, len(self.objs)))
        for h in hs:
            del self.objs[h]
        self.emit({'t': 'drop', 'a': hs})

    def collect(self):
        gc.collect()
        if FORCE_GC:
            FORCE_GC()
        self.emit({'t': 'internal', 'what': 'gc'})

    def threads(self):
        n = self.rng.choice([1, 2, 4, 8])
        GraphSet.omp_set_num_threads(n)
        self.emit({'t': 'internal', 'what': 'threads', 'n': n})

    def litter(self):
        """Computes unrelated families over a larger or smaller range and drops them."""
        r = self.rng
        tmp = []
        heavy = self.prof.get('heavy', 0)
        if heavy and r.random() < .5:      # many nodes, variables and cache entries; some stay alive
            n = r.choice([40, 150, 300])
            fam = lambda: _graphillion.setset([set(r.sample(range(1, n + 1), r.randint(0, min(n, 40))))
                                               for _ in range(r.randint(100, heavy))])
            a, b = fam(), fam()
            self.ghosts += [a | b, a ^ b]
            tmp = [a & b, a.maximal() - b, a.subsets(b)]
            self.ghosts = self.ghosts[-8:]
        _graphillion.setset([set([12])])
        for _ in range(r.randint(1, 6)):
            a = _graphillion.setset([set(r.sample(range(1, 13), r.randint(0, 12))) for _ in range(r.randint(0, 30))])
            b = _graphillion.setset([set(r.sample(range(1, 13), r.randint(0, 12))) for _ in range(r.randint(0, 30))])
            tmp += [a | b, a & b, a.join(b), a.maximal(), b.hitting(12), a.non_subsets(b), a ^ b]
            if r.random() < .5:
                tmp = []
        self.emit({'t': 'internal', 'what': 'litter'})

    def fdump_op(self):
        hs = sorted(self.objs)
        if not hs:
            return
        h = self.rng.choice(hs)
        c, o = self.objs[h]
        name = 'f%d' % self.rng.randint(1, 2)
        path = os.path.join(self.scratch, name)
        off, cl = self.fdump.get(name, (0, []))
        with open(path, 'a') as f:
            o.dump(f)
        self.fdump[name] = (off, cl + [c])
        self.emit({'t': 'dump', 'h': h, 'name': name})

    def fload_op(self):
        names = [k for k, (o, cl) in self.fdump.items() if cl]
        if not names:
            return
        name = self.rng.choice(sorted(names))
        off, cl = self.fdump[name]
        with open(os.path.join(self.scratch, name)) as f:
            f.seek(off)
            k = self.rng.randint(1, len(cl))
            for c in cl[:k]:
                o = CLS[c].load(f)
                if c == 'set' and not isinstance(o, setset):
                    o = setset(o)
                h = self.new_handle(c, o)
                self.emit({'t': 'load', 'h': h, 'name': name, 'c': c, 'v': self.members(c, o)})
            self.fdump[name] = (f.tell(), cl[k:])

    def purge_files(self):
        """Forgets files whose universe is about to change."""
        for name in list(self.fdump):
            while self.fdump[name][1]:
                self.fload_op()

    def restart(self):
        """Continues in a new process: only files and universes survive."""
        self.objs.clear()
        self.iters.clear()
        self.ghosts = []
        self.emit({'t': 'restart'})
        st = {'rng': self.rng.getstate(), 'regs': self.w.regs, 'nh': self.nh, 'ni': self.ni,
              'nev': self.nev, 'fdump': self.fdump, 'sn': self.w.sn, 'out': self.out_path, 'prof': self.prof,
              'sid': self.sid, 'left': self.left, 'sess': self.sess, 'kinds': self.kinds}
        path = os.path.join(self.scratch, 'state')
        with open(path, 'wb') as f:
            pickle.dump(st, f)
        self.out.close()
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), '--resume', path])

    # -- every family over a few elements
    def grid(self, c, G):
        r = self.rng
        n = G['n']
        if self.objs:
            self.drop(len(self.objs))
        need = 'graph' if c == 'ev' else c
        m = 1 if c == 'ev' else n
        self.prof.update(set_n=[n, n], graph_m=[m, m], graph_n=m + 1, di_m=[m, m], di_n=3, vset_n=n)
        while True:
            self.universe(need)
            if self.w.size(need) == m:
                break
        n = self.w.size(c)
        sets = [[i + 1 for i in range(n) if b >> i & 1] for b in range(1 << n)]
        if c == 'ev':
            sets = [a for a in sets if not a or a[0] != 1 or len(a) == n]
        base = []
        for b in range(1 << len(sets)):
            fam = [s for i, s in enumerate(sets) if b >> i & 1]
            r.shuffle(fam)
            objs = [self.w.pyset(c, s, True) for s in fam]
            self.call(c, 'new', [], {'t': 'sets', 'e': fam}, lambda: CLS[c](objs), 'fam')
            base.append(self.nh)
        keep = set(base)
        args = [('set', a) for a in sets] + [('elem', i) for i in range(1, n + 1)]
        if c in ('graph', 'di'):
            args += [('vert', v) for v in range(1, self.w.nvert(c) + 1)]

        def go(op, hs):
            if op in MUTATES:
                self.forced = [hs[0]]
                self.do(c, 'copy')
                hs = [self.nh] + hs[1:]
            self.forced = list(hs)
            self.do(c, op)
            self.forced = []
            extra = [h for h in self.objs if h not in keep]
            if len(extra) > 30:
                for h in extra:
                    del self.objs[h]
                self.emit({'t': 'drop', 'a': extra})

        p = min(1, 256.0 / len(base) ** 2)
        for op in G.get('pairs', ()):
            for h in base:
                for h2 in base:
                    if r.random() < p:
                        go(op, [h, h2])
        for op in G.get('unary', ()):
            for h in base:
                for _ in range(1 if op not in SIZED else n + 2):
                    self.fk = _ if op in SIZED else None
                    go(op, [h])
                self.fk = None
        p = min(1, 1000.0 / (len(base) * len(args)))
        for op in G.get('args', ()):
            for h in base:
                for a in args:
                    if r.random() > p or op == 'included' and (a[0] != 'set' or c == 'set') or c == 'set' and (
                            op in SELECT and a[0] != 'elem' or op == 'flip' and a[0] != 'elem'):
                        continue
                    self.farg = a
                    go(op, [h])
                    self.farg = None
        self.audit()
        self.uniquery()

    def graph_grid(self, c, ops):
        """Every graph of two to four vertices, every digraph of two and three."""
        import itertools
        r = self.rng
        for n in (2, 3) if c == 'di' else (2, 3, 4):
            pool = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1) if (u != v if c == 'di' else u < v)]
            for b in range(1, 1 << len(pool)):
                E = [e for i, e in enumerate(pool) if b >> i & 1]
                if len(set(v for e in E for v in e)) < n:
                    continue
                r.shuffle(E)
                if c != 'di':
                    E = [e if r.random() < .5 else e[::-1] for e in E]
                self.fgraph = n, E
                if self.objs:
                    self.drop(len(self.objs))
                self.universe('di' if c == 'di' else 'graph')
                for op, k in sorted(ops.items()):
                    for _ in range(k):
                        if op == 'reliability':
                            self.do_rel()
                        else:
                            if op.startswith('in:') or op == 'forbidden' or op == 'to_vset' or op == 'to_ev':
                                self.do_new(c)
                            self.do(c, op)
                        if len(self.objs) > 20:
                            self.drop(len(self.objs))
        self.fgraph = None

    # -- sessions
    def run(self):
        if 'graph_grid' in self.prof:
            self.graph_grid(*self.prof['graph_grid'])
            return self.finish()
        if 'grid' in self.prof:
            for G in self.prof['grid']:
                self.grid(self.prof.get('cls', ALLC[self.seed % len(ALLC)]), G)
            return self.finish()
        while self.nev < self.prof['events']:
            sess = self.rng.choices(self.prof['sessions'], [s.get('weight', 1) for s in self.prof['sessions']])[0]
            self.session(sess)
        self.finish()

    def finish(self):
        self.out.close()
        with open(self.out_path + '.kinds', 'w') as f:
            json.dump(self.kinds, f)

    def session(self, sess):
        r = self.rng
        self.sess = sess
        self.sid += 1
        self.purge_files()
        self.objs.clear() if False else None
        if self.objs:
            self.drop(len(self.objs))
        cs = sess['classes']
        self.cls = [r.choice(cs)] if not sess.get('all') else cs
        need = set('graph' if c in ('graph', 'vset', 'ev') else c for c in self.cls)
        for c in sorted(need):
            if r.random() < sess.get('bad', .05):
                self.universe(c, True)
            self.universe(c)
        if 'vset' in self.cls and r.random() < sess.get('custom_vset', .2):
            if r.random() < sess.get('bad', .05):
                self.universe('vset', True)
            self.universe('vset')
        self.left = sess.get('len', 40)
        self.session_loop()

    def session_loop(self):
        r = self.rng
        sess = self.sess
        cs = sess['classes']
        if not hasattr(self, 'cls'):
            self.cls = [c for c in cs if self.w.size(c)]
        ops = sess['ops']
        names = list(ops)
        wts = [ops[k] for k in names]
        seedn = sess.get('seed', 2)
        for c in self.cls:
            for _ in range(seedn):
                self.do_new(c)
        while self.left > 0:
            self.left -= 1
            op = r.choices(names, wts)[0]
            if op == 'audit':
                self.audit()
            elif op == 'gc':
                self.collect()
            elif op == 'threads':
                self.threads()
            elif op == 'litter':
                self.litter()
            elif op == 'drop':
                self.drop(r.randint(1, 3))
            elif op == 'next':
                if self.iters:
                    i = r.choice(sorted(self.iters))
                    if not self.do_next(i):
                        self.do_next(i)
                        self.emit({'t': 'dropiter', 'i': i})
                        del self.iters[i]
            elif op == 'fdump':
                self.fdump_op()
            elif op == 'fload':
                self.fload_op()
            elif op == 'restart':
                self.restart()
            elif op == 'baduni':
                self.universe(r.choice([c for c in self.cls if c != 'ev'] or ['graph']), True)
            elif op == 'uniquery':
                self.uniquery()
            elif op == 'reliability':
                self.do_rel()
            else:
                c = r.choice(self.cls)
                for _ in range(4):
                    if self.do(c, op):
                        break
                    c = r.choice(self.cls)
                    op = r.choices(names, wts)[0]
                    if op in ('audit', 'gc', 'threads', 'litter', 'drop', 'next', 'fdump', 'fload',
                              'restart', 'baduni', 'uniquery', 'reliability'):
                        break
            big = sess.get('cap', 14)
            if 'maxfam' in self.prof:
                hs = [h for h, (c, o) in self.objs.items() if o.len() > self.prof['maxfam']]
                if hs:
                    for h in hs:
                        del self.objs[h]
                    self.emit({'t': 'drop', 'a': hs})
            if len(self.objs) > big:
                self.drop(len(self.objs) - big + 3)
        if r.random() < self.prof.get('bigdraws', 0):
            if r.random() < .5 and not self.prof.get('hugedraws'):
                self.do_distinct()
            else:
                self.do_bigdraws()
        self.audit()
        if sess.get('uniquery_end', True):
            self.uniquery()


CLASSNAMES = {'claw': 'claw_graphs', 'diamond': 'diamond_graphs', 'gem': 'gem_graphs',
              'odd_hole': 'odd_hole_graphs', 'claw_free': 'claw_free_graphs',
              'diamond_free': 'diamond_free_graphs', 'gem_free': 'gem_free_graphs',
              'odd_hole_free': 'odd_hole_free_graphs', 'chordal': 'chordal_graphs',
              'cograph': 'cographs', 'chordal_bipartite': 'chordal_bipartite_graphs',
              'split': 'split_graphs', 'block': 'block_graphs', 'ptolemaic': 'ptolemaic_graphs',
              'threshold': 'threshold_graphs', 'gridline': 'gridline_graphs',
              'domino': 'domino_graphs', 'linear_domino': 'linear_domino_graphs'}
GRAPHOPS = {"graphs", "connected_components", "steiner_subgraphs", "steiner_trees",
            "steiner_cycles", "steiner_paths", "trees", "forests", "cycles", "paths", "matchings",
            "perfect_matchings", "k_matchings", "b_matchings", "k_factors", "f_factors", "cliques",
            "bicliques", "regular_graphs", "bipartite_graphs", "regular_bipartite_graphs",
            "degree_distribution_graphs", "letter_P_graphs", "partitions", "balanced_partitions",
            "induced_graphs", "weighted_induced_graphs", "class"}
DIOPS = {"directed_cycles", "directed_hamiltonian_cycles", "directed_st_paths",
         "rooted_forests", "rooted_trees", "digraphs"}
VERTOPS = {"independent_sets", "dominating_sets", "vertex_covers", "vcliques"}


def _force_gc():
    """The node collector itself, if the extension still exports it."""
    try:
        f = ctypes.CDLL(_graphillion.__file__)._Z5bddgcv
    except Exception:    # noqa
        return None
    f.restype = ctypes.c_int
    return f


FORCE_GC = _force_gc()


def main():
    if sys.argv[1] == '--resume':
        with open(sys.argv[2], 'rb') as f:
            st = pickle.load(f)
        d = Driver(st['out'], 0, st['prof'])
        d.rng.setstate(st['rng'])
        d.nh, d.ni, d.nev, d.fdump = st['nh'], st['ni'], st['nev'], st['fdump']
        d.sid, d.left, d.sess, d.kinds = st['sid'], st['left'], st['sess'], st['kinds']
        for c in ('set', 'graph', 'vset', 'di'):
            if c in st['regs']:
                a = st['regs'][c]
                if c == 'set':
                    a = (a[0], st['sn'])
                d.w.register(c, a)
        d.session_loop()
    else:
        out, seed, prof = sys.argv[1:4]
        with open(prof) as f:
            prof = json.load(f)
        if os.path.exists(out):
            os.unlink(out)
        d = Driver(out, int(seed), prof)
    d.run()


if __name__ == '__main__':
    main()
