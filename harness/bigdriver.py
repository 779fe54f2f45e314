"""Like driver.py, but with families far too large to list: every object is
recorded as the decision diagram that dumps() writes, for spec/Diagram.tla.

usage: bigdriver.py OUTDIR SEED PROFILE.json
"""
import io
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import _graphillion
from graphillion import (DiGraphSet, GraphSet, VertexSetSet, setset)
from graphillion.universe import Universe
import driver as D
import profiles
import world as W
from world import CLS

GRAPHOPS = sorted(D.GRAPHOPS - {'class'})
IN = profiles.GIN


class Big(D.Driver):

    def __init__(self, outdir, seed, prof):
        self.dir = outdir
        D.Driver.__init__(self, os.path.join(outdir, 't.ndjson'), seed, prof)
        self.diags = {}           # text of a diagram -> its number
        self.dout = open(os.path.join(outdir, 'd.ndjson'), 'w')
        self.cur = {}             # handle -> number of its diagram
        self.c = None
        self.order = []           # universe order: label at each position
        self.w4 = 1

    # -- diagrams
    def diag(self, obj):
        text = obj.dumps()
        lines = text.strip().split('\n')
        if lines[-1].strip() != '.':
            raise ValueError('dump does not end: %r' % text[-40:])
        lines = lines[:-1]
        n = len(self.order)
        at, v, lo, hi = {'B': 1, 'T': 2}, [9999, 9999], [1, 2], [1, 1]
        root = 1
        if len(lines) == 1 and lines[0].strip() in ('B', 'T'):
            root = at[lines[0].strip()]
        else:
            for x in lines:
                k, e, a, b = x.split()
                v.append(int(e))
                lo.append(at[a])
                hi.append(at[b])
                at[k] = root = len(v)
        d = {'n': n, 'v': v, 'lo': lo, 'hi': hi, 'root': root}
        key = json.dumps(d)
        if key not in self.diags:
            self.diags[key] = len(self.diags) + 1
            self.dout.write(key + '\n')
        return self.diags[key], len(v)

    def huge(self, obj):
        return _nodes(obj) > self.prof.get('hard', 3000)

    # -- positions
    def pos(self, s):
        ids = sorted(self.index[x] for x in s)
        return ids

    def obj_of(self, ids):
        r = self.rng
        objs = [self.order[i - 1] for i in ids]
        if self.c == 'graph':
            objs = [e if r.random() < .6 else e[::-1] for e in objs]
        return set(objs) if r.random() < .5 or self.c == 'set' else objs

    def setup(self, c):
        self.c = c
        if self.cur:
            self.emit({'t': 'drop', 'a': sorted(self.cur)})
        self.cur.clear()
        self.objs.clear()
        if c == 'ev':
            c = 'graph'
        keep, self.emit = self.emit, lambda ev: None
        try:
            self.universe(c if c != 'vset' or self.rng.random() < .6 else 'graph')
        finally:
            self.emit = keep
        u = CLS[self.c].universe() if self.c != 'ev' else Universe.edge_vertex_universe()
        if self.c in ('graph', 'di'):
            u = [e[:2] for e in u]
        elif self.c == 'vset':
            lab = {}
            u = [x if self.w.index('vset', x) else x[0] for x in u]
        self.at(u)

    def at(self, u):
        self.order = list(u)
        self.index = {x: i + 1 for i, x in enumerate(self.order)}

    # -- events
    def ask(self, op, hs, x, k, v, **kw):
        ev = {'t': 'call', 'op': op, 'a': hs, 'x': x, 'k': k, 'v': v, 'h': 0, 'd': 0, 'm': 0, 'n': len(self.order)}
        ev.update(kw)
        self.emit(ev)

    def result(self, op, hs, x, fn, src=False):
        """fn() makes a new family."""
        r = fn()
        if op == 'quotient' and False:
            return None
        if not isinstance(r, CLS[self.c]):
            if isinstance(r, _graphillion.setset) and self.c == 'set':
                r = setset(r)
        if self.huge(r):                  # not recorded
            return None
        d, size = self.diag(r)
        self.nh += 1
        h = self.nh
        if src:
            self.emit({'t': 'src', 'op': op, 'h': h, 'd': d, 'n': len(self.order)})
        else:
            self.ask(op, hs, x, 'fam', 0, h=h, d=d)
        self.objs[h] = (self.c, r)
        self.cur[h] = d
        if size > self.prof.get('maxnodes', 400):
            self.lose([h])
            return None
        return h

    def mutate(self, op, hs, x, fn):
        fn()
        h = hs[0]
        if self.huge(self.objs[h][1]):
            return self.lose([h])
        d, size = self.diag(self.objs[h][1])
        self.cur[h] = d
        self.ask(op, hs, x, 'fam', 0, d=d, m=d)
        if size > self.prof.get('maxnodes', 400):
            self.lose([h])

    def lose(self, hs):
        for h in hs:
            del self.objs[h]
            del self.cur[h]
        self.emit({'t': 'drop', 'a': hs})

    def audit(self, hs=None):
        self.emit({'t': 'audit', 'fams': [[h, self.diag(o)[0]] for h, (c, o) in sorted(self.objs.items())]})

    # -- sources
    def sets(self, k):
        r = self.rng
        n = len(self.order)
        return [sorted(r.sample(range(1, n + 1), min(n, r.choice([0, 1, 2, 3, 5, n // 3, n // 2, n - 1, n]))))
                for _ in range(k)]

    def source(self):
        r = self.rng
        c = self.c
        n = len(self.order)
        K = CLS[c]
        kind = r.choice(self.prof.get('sources', ['con', 'new', 'graph', 'graph', 'graph']))
        if c == 'ev':
            return self.evsource()
        if kind == 'con':
            inc = [i for i in range(1, n + 1) if r.random() < .1]
            q = r.choice([0, .1, .4, .8])
            exc = [i for i in range(1, n + 1) if i not in inc and r.random() < q]
            arg = {}
            if inc:
                arg['include'] = self.obj_of(inc)
            if exc:
                arg['exclude'] = self.obj_of(exc)
            return self.result('con', [], {'inc': inc, 'exc': exc}, lambda: K(arg))
        if kind == 'new' or c == 'set':
            fam = self.sets(r.choice([1, 3, 10, 40]))
            objs = [self.obj_of(s) for s in fam]
            return self.result('new', [], {'e': fam}, lambda: K(objs))
        return self.graphsource()

    def construct_arg(self, op, x):
        """The call's arguments by position in the universe."""
        w = self.w
        x = dict(x, op=op)
        if self.c == 'graph':
            at = {e[:2]: i for i, e in enumerate(w.E)}
            perm = [at[e] for e in self.order]
            ends = lambda e: [w.vlab.index(e[0]) + 1, w.vlab.index(e[1]) + 1]
            x['g'] = {'n': w.n, 'E': [ends(e) for e in self.order]}
            if 'lc' in x:
                x['lc'] = [[[ws[i] for i in perm], lo, hi] for ws, lo, hi in x['lc']]
        elif self.c == 'di':
            ends = lambda e: [w.dlab.index(e[0]) + 1, w.dlab.index(e[1]) + 1]
            x['g'] = {'n': w.dn, 'E': [ends(e) for e in self.order]}
        else:
            at = {w.index('vset', v): i + 1 for i, v in enumerate(self.order)}
            x['h'] = [[at[a], at[b]] for a, b in x['h']]
            x['n'] = len(self.order)
        return x

    def width(self, x):
        """How much the automaton of a constructor has to remember."""
        if 'g' in x:
            E = x['g']['E']
            last = {v: i for i, e in enumerate(E) for v in e}
            first = {v: i for i, e in reversed(list(enumerate(E))) for v in e}
            return max([sum(first[v] <= i < last[v] for v in last) for i in range(len(E))] + [0])
        n = x['n']
        near = {v: {v} for v in range(1, n + 1)}
        adj = {v: set() for v in near}
        for a, b in x['h']:
            adj[a].add(b)
            adj[b].add(a)
        for _ in range(min(x.get('k', 1), n) if x['op'] in ('dominating_sets', 'independent_sets') else 1):
            near = {v: set().union(*[adj[u] | {u} for u in near[v]]) for v in near}
        if x['op'] == 'vcliques':
            return 0
        later = lambda v, p: any(u > p for u in near[v])
        return max([min(sum(later(v, p) for v in range(1, p + 1)),
                        sum(any(v <= p for v in near[u]) for u in range(p + 1, n + 1)))
                    for p in range(1, n + 1)] + [0])

    def ev_arg(self):
        w = self.w
        U = Universe.edge_vertex_universe()
        E, m, pos, ge = [], [], [0] * w.n, [e[:2] for e in GraphSet.universe()]
        for i, o in enumerate(U):
            if o in ge:
                m.append([1, ge.index(o) + 1])
                E.append([w.vlab.index(o[0]) + 1, w.vlab.index(o[1]) + 1])
            else:
                v = w.vlab.index(o) + 1
                m.append([2, v])
                pos[v - 1] = i + 1
                E.append([])
        return {'op': 'to_ev', 'map': m, 'pos': pos, 'g': {'n': w.n, 'E': E}}

    def evsource(self):
        """The edge-vertex sets of a family of graphs."""
        keep = self.order
        self.c = 'graph'
        self.at([e[:2] for e in GraphSet.universe()])
        before = set(self.objs)
        h = self.source() if self.rng.random() < .5 else self.graphsource()
        self.c = 'ev'
        self.at(keep)
        if h is None or h not in self.objs:
            return None
        g = self.objs[h][1]
        h2 = None
        if _nodes(g) <= self.prof.get('oplimit', {}).get('to_ev', 150):
            h2 = self.result('to_ev', [h], self.ev_arg(), lambda: g.to_edgevertexsetset())
        self.lose([h])
        return h2

    def graphsource(self):
        r = self.rng
        c = self.c
        for _ in range(6):
            if c == 'graph':
                n, m = self.w.n, len(self.w.E)
                op = r.choice(self.graphops())
                x, args, kws = self.graph_args(op, n, m, list(range(1, n + 1)))
                if op == 'bicliques' and x['k'] != x['k2']:
                    continue
                f = getattr(GraphSet, op)
            elif c == 'di':
                op = r.choice(sorted(D.DIOPS))
                x, args, kws = self.di_args(op)
                f = getattr(DiGraphSet, 'graphs' if op == 'digraphs' else op)
            elif c == 'vset':
                op = r.choice(sorted(D.VERTOPS if len(self.order) <= 100 else D.VERTOPS - {'vcliques'}))
                x, args, kws = self.vert_args(op)
                f = getattr(VertexSetSet, 'cliques' if op == 'vcliques' else op)
            else:
                return None
            con = self.construct_arg(op, x)
            if self.width(con) > self.prof.get('width', 7):
                continue
            A = f(*args, **kws)
            if A is None or _nodes(A) > self.prof.get('maxnodes', 400) and r.random() < .9 or _nodes(A) < 3 and r.random() < .5:
                continue
            h = self.result('construct', [], con, lambda: A)
            self.kinds[op] = self.kinds.get(op, 0) + 1
            return h
        return None

    def inside(self):
        """A constructor that searches within a family."""
        r = self.rng
        hs = self.pickb(1, self.prof.get('inlimit', 150))
        if hs is None:
            return
        gs = self.objs[hs[0]][1]
        if self.c == 'graph':
            ops = [o for o in self.graphops() if 'in:' + o in IN]
            if not ops:
                return
            op = r.choice(ops)
            x, args, kws = self.graph_args(op, self.w.n, len(self.w.E), list(range(1, self.w.n + 1)))
            f = getattr(gs, op)
        elif self.c == 'di':
            op = r.choice(sorted(D.DIOPS))
            x, args, kws = self.di_args(op)
            f = getattr(gs, 'graphs' if op == 'digraphs' else op)
        else:
            return
        if op == 'bicliques' and x['k'] != x['k2']:
            return
        self.kinds['in:' + op] = self.kinds.get('in:' + op, 0) + 1
        con = self.construct_arg(op, x)
        if self.width(con) > self.prof.get('width', 7):
            return
        return self.result('construct', hs, con, lambda: f(*args, **kws))

    def reliability(self):
        r = self.rng
        w = self.w
        if self.c != 'graph':
            return
        ts = r.sample(range(1, w.n + 1), min(w.n, r.choice([2, 2, 3, 4, w.n])))
        labs = [w.vert('graph', v) for v in ts]
        if self.width(self.construct_arg('steiner_trees', {'vs': ts})) > self.prof.get('width', 7):
            return
        # the graphs that contain a tree connecting the terminals
        h = self.result('construct', [], self.construct_arg('steiner_trees', {'vs': ts}),
                        lambda: GraphSet.steiner_trees(labs))
        if h is None:
            return
        top = self.result('con', [], {'inc': [], 'exc': []}, lambda: GraphSet({}))
        h = self.result('supersets', [top, h], {}, lambda: self.objs[top][1].supergraphs(self.objs[h][1]))
        if h is None:
            return
        q0, q1, k = self.halves(len(self.order))
        p = {self.order[i]: q1[i] / float(q0[i] + q1[i]) for i in range(len(self.order))}
        v = GraphSet.reliability(p, labs) * 2 ** k
        return self.ask('prob', [h], {'q0': q0, 'q1': q1}, 'val', digits(int(v)) if v == int(v) else ['inexact'])

    def halves(self, n):
        r = self.rng
        half = min(40, r.randint(0, n))
        q = [1] * half + [r.choice([0, 2]) for _ in range(n - half)]
        r.shuffle(q)
        return [1 if x == 1 else (1 if x == 0 else 0) for x in q], \
            [1 if x == 1 else (0 if x == 0 else 1) for x in q], half

    def graphops(self):
        m = len(self.order)
        lim = self.prof.get('con_max', {})
        ops = self.prof.get('graphops', GRAPHOPS)
        return [op for op in ops if m <= lim.get(op, 999)] or ['graphs']

    # -- operations
    def pickb(self, k=1, nodes=None):
        """k handles, all with few enough nodes."""
        r = self.rng
        hs = [h for h in self.objs if nodes is None or _nodes(self.objs[h][1]) <= nodes]
        return [r.choice(sorted(hs)) for _ in range(k)] if hs else None

    def op(self, op):
        r = self.rng
        c = self.c
        n = len(self.order)
        if c == 'ev' and op in D.NOT_EV:
            return
        if op in ('to_ev', 'to_vset'):
            return
        lim = self.prof.get('oplimit', {}).get(op)
        hs = self.pickb(1, lim)
        if hs is None:
            return self.source()
        o = self.objs[hs[0]][1]
        if op in D.BOOL2 or op in D.UPD:
            hs += self.pickb(r.choice([1, 1, 1, 2, 3]))
            os_ = [self.objs[h][1] for h in hs[1:]]
            two = len(hs) == 2
            if op in D.BOOL2:
                fn = (lambda: D.OPERATORS[op](o, os_[0])) if two and r.random() < .5 else \
                    (lambda: getattr(o, op)(*os_))
                return self.result(op, hs, {}, fn)
            return self.mutate(op, hs, {}, lambda: getattr(o, op)(*os_))
        if op in ('quotient_update', 'remainder_update'):
            return
        if op in D.KNUTH:
            g = self.pickb(1, lim)
            if g is None:
                return
            hs += g
            q = self.objs[hs[1]][1]
            if op in ('quotient', 'remainder') and not q:
                return
            if op == 'remainder':
                h = self.result('quotient', hs, {}, lambda: o / q)
                if h is None:
                    return
                return self.result(op, hs + [h], {}, lambda: o % q)
            return self.result(op, hs, {}, lambda: getattr(o, self.name(c, op))(q))
        if op == 'complement' and c == 'set':
            return self.mutate('flipall', hs, {}, lambda: o.flip())
        if op in ('minimal', 'maximal', 'complement', 'copy'):
            return self.result(op, hs, {}, lambda: getattr(o, op)())
        if op == 'invert':
            return self.result(op, hs, {}, lambda: ~o)
        if op == 'hitting':
            return self.result(op, hs, {}, lambda: getattr(o, self.name(c, op))())
        if op in D.SIZED:
            k = r.choice([0, 1, 2, n, n + 1] + [r.randint(0, n) for _ in range(6)])
            return self.result(op, hs, {'k': k}, lambda: getattr(o, self.name(c, op))(k))
        if op in D.RECO:
            return self.result(op, hs, {}, getattr(o, D.RECONF[c][D.RECO.index(op)]))
        if op in ('cost_le', 'cost_ge', 'cost_eq'):
            if c == 'set':
                op = 'cost_le'
            hi = r.choice([1, 3, 100, 10 ** 6, 2 ** 31 - 1])
            w = [r.randint(-hi if r.random() < .5 else 0, hi) if hi < 10 ** 6 else
                 hi * r.choice([0, 0, 1, -1]) + r.choice([0, 0, 1]) * r.randint(0, 1 if hi > 10 ** 6 else 5)
                 for _ in range(n)]
            w = [max(-2 ** 31 + 1, min(2 ** 31 - 1, x)) for x in w]
            m = next(iter(o), None)
            b = sum(w[self.index[self.canon(e)] - 1] for e in m) if m is not None else 0
            b += r.choice([0, 0, 1, -1, r.randint(-hi, hi)])
            b = max(-2 ** 31 + 1, min(2 ** 31 - 1, b))
            cost = {self.order[i]: w[i] for i in range(n)}
            split = lambda x: [x >> 16, x & 65535]
            return self.result(op, hs, {'w': [split(x) for x in w], 'b': split(b)},
                               lambda: getattr(o, op)(cost, b))
        if op in ('including', 'excluding', 'included'):
            if c == 'set':
                if op == 'included':
                    return
                i = r.randint(1, n)
                m = {'including': 'supersets', 'excluding': 'non_supersets'}[op]
                return self.result(op, hs, {'e': [i]}, lambda: getattr(o, m)(self.order[i - 1]))
            ids = self.near_set(o, r.choice([1, 1, 2, 3]) if op != 'included' else None)
            arg = self.order[ids[0] - 1] if len(ids) == 1 and op != 'included' else self.obj_of(ids)
            return self.result(op, hs, {'e': ids}, lambda: getattr(o, op)(arg))
        if op in ('add', 'remove', 'discard'):
            if c != 'ev' and r.random() < .4:
                i = r.randint(1, n)
                if op == 'remove' and self.order[i - 1] not in o:
                    op = 'discard'
                return self.mutate('graft' if op == 'add' else 'erase', hs, {'e': i},
                                   lambda: getattr(o, op)(self.order[i - 1]))
            ids = self.near_set(o)
            if c == 'ev' and op == 'add':
                return
            if op == 'remove' and not self.has(o, ids):
                op = 'discard'
            return self.mutate(op, hs, {'e': ids}, lambda: getattr(o, op)(self.obj_of(ids)))
        if op == 'flip':
            i = r.randint(1, n)
            return self.mutate(op, hs, {'e': i}, lambda: o.flip(self.order[i - 1]))
        if op == 'reload':
            buf = io.StringIO()
            if r.random() < .5:
                return self.result(op, hs, {}, lambda: CLS[c].loads(o.dumps()))

            def fn():
                path = os.path.join(self.scratch, 'f')
                with open(path, 'w') as f:
                    o.dump(f)
                with open(path) as f:
                    return CLS[c].load(f)
            return self.result(op, hs, {}, fn)
        if op == 'len':
            v = o.len()
            return self.ask(op, hs, {}, 'val', digits(v))
        if op == 'bool':
            return self.ask(op, hs, {}, 'val', bool(o))
        if op == 'contains':
            ids = self.near_set(o)
            return self.ask(op, hs, {'e': ids}, 'val', self.has(o, ids))
        if op in ('eq', 'ne'):
            g = self.pickb()
            if r.random() < .3:
                q = self.objs[g[0]][1]
                return self.ask(op, hs + hs, {}, 'val', (o == o.copy()) if op == 'eq' else (o != o.copy()))
            q = self.objs[g[0]][1]
            return self.ask(op, hs + g, {}, 'val', (o == q) if op == 'eq' else (o != q))
        if op in ('le', 'lt', 'ge', 'gt', 'isdisjoint'):
            return self.compare(op, hs)
        if op == 'choice':
            if o:
                self.ask(op, hs, {}, 'val', self.pos(map(self.canon, o.choice())))
            return
        if op == 'pop':
            if o:
                s = self.pos(map(self.canon, o.pop()))
                self.ask('member', hs, {}, 'val', s)
                self.mutate('remove', hs, {'e': s}, lambda: None)
            return
        if op in ('iter', 'rand'):
            k = r.choice([1, 3, 10])
            it = iter(o) if op == 'iter' else o.rand_iter()
            got = self.take(it, k)
            return self.ask(op, hs, {'k': k}, 'val', got, stop=len(got) < k)
        if op in ('min_iter', 'max_iter'):
            k = r.choice([1, 3, 10])
            w = [r.choice([0, 1, 2, 3, -1, -2, 10, 57]) for _ in range(n)]
            if r.random() < .3:
                w = [1] * n
            it = getattr(o, op)({self.order[i]: w[i] / 4.0 for i in range(n)})
            got = self.take(it, k)
            return self.ask(op, hs, {'k': k, 'w': w}, 'val', got, stop=len(got) < k)
        if op == 'prob':
            q0, q1, k = self.halves(n)
            p = {self.order[i]: q1[i] / float(q0[i] + q1[i]) for i in range(n)}
            v = o.probability(p) * 2 ** k
            return self.ask(op, hs, {'q0': q0, 'q1': q1}, 'val', digits(int(v)) if v == int(v) else ['inexact'])

    def compare(self, op, hs):
        r = self.rng
        g = self.pickb()
        o, q = self.objs[hs[0]][1], self.objs[g[0]][1]
        if r.random() < .6:                  # related operands
            how = r.choice(['intersection', 'union', 'difference'])
            h = self.result(how, hs + g, {}, lambda: getattr(o, how)(q))
            if h is None or h not in self.objs:
                return
            q = self.objs[h][1]
            g = [h]
        if op in ('ge', 'gt'):
            o, q, hs, g = q, o, g, hs
            rep = (q >= o) if op == 'ge' else (q > o)
        elif op == 'isdisjoint':
            rep = o.isdisjoint(q)
        else:
            rep = (o <= q) if op == 'le' and r.random() < .5 else o.issubset(q) if op == 'le' else (o < q)
        strict = op in ('lt', 'gt')
        if not isinstance(rep, bool):
            rep = None
        if op == 'isdisjoint':
            if rep:
                return self.ask('isdisjoint', hs + g, {}, 'rel', 0)
            w = o & q
            return self.ask('disjwitness', hs + g, {'e': self.pos(map(self.canon, w.choice())) if w else [0]}, 'val', 0)
        if rep:
            if strict:
                self.ask('ne', hs + g, {}, 'val', True)
            return self.ask('le', hs + g, {}, 'rel', 0)
        w = o - q
        if strict and not w:                 # refused because they are equal
            return self.ask('eq', hs + g, {}, 'val', True)
        return self.ask('lewitness', hs + g, {'e': self.pos(map(self.canon, w.choice())) if w else [0]}, 'val', 0)

    def canon(self, e):
        return e

    def take(self, it, k):
        out = []
        for s in it:
            out.append(self.pos(map(self.canon, s)))
            if len(out) == k:
                break
        return out

    def has(self, o, ids):
        s = self.obj_of(ids)
        return s in o

    def near_set(self, o, k=None):
        ids = self.near_set1(o, k)
        if self.c != 'ev' or len(ids) == 1 and k is not None:
            return ids
        out = set()                       # edges with their ends
        for i in ids:
            e = self.order[i - 1]
            if Universe.edge_vertex_kind[e]:
                out |= {i, self.index[e[0]], self.index[e[1]]}
        return sorted(out)

    def near_set1(self, o, k=None):
        """A set of positions that is, or nearly is, a member of o."""
        r = self.rng
        n = len(self.order)
        m = None
        if o and r.random() < .8:
            m = self.pos(map(self.canon, next(iter(o.rand_iter()))))
        else:
            m = sorted(r.sample(range(1, n + 1), r.randint(0, n)))
        if k is not None:
            return sorted(r.sample(m, k)) if len(m) >= k and r.random() < .7 else sorted(r.sample(range(1, n + 1), min(n, k)))
        if r.random() < .3:
            m = sorted(set(m) ^ {r.randint(1, n)})
        return m

    def run(self):
        r = self.rng
        p = self.prof
        names = list(p['ops'])
        while self.nev < p['events']:
            self.setup(r.choice(p['classes']))
            for _ in range(p.get('seedn', 4)):
                self.source()
            for _ in range(p.get('len', 40)):
                if self.nev >= p['events']:
                    break
                op = r.choices(names, [p['ops'][k] for k in names])[0]
                if op == 'audit':
                    self.audit()
                elif op == 'src':
                    self.source()
                elif op == 'construct':
                    self.graphsource()
                elif op == 'inside':
                    self.inside()
                elif op == 'reliability':
                    self.reliability()
                elif op in ('gc', 'litter'):
                    keep, self.emit = self.emit, lambda ev: None
                    self.collect() if op == 'gc' else self.litter()
                    self.emit = keep
                else:
                    self.kinds[op] = self.kinds.get(op, 0) + 1
                    self.op(op)
                if len(self.objs) > p.get('cap', 10):
                    self.lose(r.sample(sorted(self.objs), 3))
            self.audit()
        self.dout.close()
        self.finish()


def digits(v):
    out = []
    while v:
        out.append(v % 10000)
        v //= 10000
    return out


def _nodes(o):
    return o.dumps().count('\n')


def main():
    out, seed, prof = sys.argv[1:4]
    with open(prof) as f:
        prof = json.load(f)
    t = os.path.join(out, 't.ndjson')
    if os.path.exists(t):
        os.unlink(t)
    Big(out, int(seed), prof).run()


if __name__ == '__main__':
    main()
