"""What each check drives: property id -> list of trace profiles.

A profile is what driver.py reads: a number of events and weighted sessions
(classes, operations).  `n` is how many traces (seeds) the quick tier records.
"""

ALL = ['set', 'graph', 'vset', 'ev', 'di']
NOEV = ['set', 'graph', 'vset', 'di']


def w(names, k=1):
    return {x: k for x in names.split()}


def mix(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


BOOL = w('union intersection difference symmetric_difference')
UPD = w('update intersection_update difference_update symmetric_difference_update')
CMP = w('eq ne le lt ge gt isdisjoint issubset issuperset')
KNUTH = w('join meet quotient remainder subsets supersets nonsubsets nonsupersets')
UNARY = w('minimal maximal hitting complement invert copy')
SIZED = w('smaller larger size')
SELECT = w('including excluding included')
MUT = w('add remove discard flip pop clear')
RECO = w('remove_some add_some remove_add_some')
BASE = w('new', 3)
HOUSE = mix(w('audit'), w('drop'))
COST = w('cost_le cost_ge cost_eq')

G_SEARCH = w('graphs', 6)
G_NAMED = w('connected_components steiner_subgraphs steiner_trees steiner_cycles steiner_paths '
            'trees forests cycles paths matchings perfect_matchings k_matchings b_matchings '
            'k_factors f_factors cliques')
G_REG = w('bicliques regular_graphs bipartite_graphs regular_bipartite_graphs '
          'degree_distribution_graphs letter_P_graphs')
G_PART = w('partitions balanced_partitions induced_graphs weighted_induced_graphs')
G_CLASS = mix(w('class', 6), w('forbidden', 3))
DI = mix(w('directed_cycles directed_hamiltonian_cycles directed_st_paths rooted_forests rooted_trees'),
         w('digraphs', 2))
VS = w('independent_sets dominating_sets vertex_covers vcliques')


def inside(d):
    return {'in:' + k: v for k, v in d.items()}


GIN = inside(mix(w('graphs', 3), G_NAMED, G_REG))
DIN = inside(DI)


def s(classes, ops, **kw):
    return dict({'classes': classes, 'ops': ops}, **kw)


def gs(ops, **kw):
    """A session that calls graph constructors only."""
    return s(['graph'], ops, **dict({'seed': 0, 'cap': 6, 'len': 60}, **kw))


ALGEBRA = mix(BOOL, UPD, CMP, KNUTH, UNARY, SIZED, SELECT, MUT, RECO, COST,
              w('text contains len bool probability reload choice samedump'))

# -- larger universes: families are sampled instead of enumerated
SHAPES = ['grid', 'complete', 'cycle', 'path', 'bip', 'petersen', 'wheel', 'tree', 'cactus', 'parts', 'local']
BIG = ('invert', 'hitting')


def wide(n, ops, classes=ALL, **kw):
    """Families of a few dozen sets over 20-120 elements."""
    ops = {k: v for k, v in ops.items() if k not in BIG and not k.startswith('near:')}
    sess = {k: kw.pop(k) for k in ('seed', 'len', 'cap', 'all', 'bad') if k in kw}
    more = kw.pop('near', {})
    d = dict(n=n, events=600, maxfam=60, perr=.03, set_n=[20, 120], graph_m=[15, 50], graph_n=20, di_m=[15, 40],
             di_n=12, vset_n=40, fam_k=[0, 1, 2, 4, 8, 14, 20], drain_max=80, shapes=SHAPES,
             observers=[8, 1, 0, 1], heavy=600,
             sessions=[s(classes, mix(ops, more, w('gc litter drop')), **dict({'len': 40}, **sess))])
    d.update(kw)
    return d


def fat(n, ops, classes=('set',), **kw):
    """Small families of sets of up to 330 elements."""
    return wide(n, mix(BASE1, ops), list(classes), **dict(dict(
        set_n=[258, 330], vset_n=300, fam_k=[0, 1, 2, 4, 8], maxfam=30, density=[.02, .3, .93, .98], events=300,
        len=40), **kw))


def deep(n, ops, classes=NOEV, **kw):
    """Families of hundreds to thousands of sets."""
    sess = {k: kw.pop(k) for k in ('seed', 'len', 'cap', 'all', 'bad') if k in kw}
    d = dict(n=n, events=40, maxfam=6000, perr=.03, set_n=[30, 120], graph_m=[30, 60], graph_n=20, vset_n=60,
             di_m=[20, 40], di_n=10, fam_k=[300, 1000, 2500], drain=0, density=[.1, .3],
             shapes=['grid', 'complete', 'cycle', 'bip', 'tree', 'cactus', 'parts', 'local'],
             observers=[1, 0, 0, 0], heavy=4000,
             sessions=[s(classes, ops, **dict({'len': 20, 'cap': 5, 'seed': 2, 'uniquery_end': False}, **sess))])
    d.update(kw)
    return d


def near(n, graph=None, di=None, vset=None, **kw):
    """Constructors on graphs of 10-26 edges, met with candidate families."""
    d = dict(n=n, events=220, perr=0, graph_m=[10, 26], graph_n=14, di_m=[10, 20], di_n=8, vset_n=24,
             fam_k=[0, 1, 2, 4, 8, 14, 20], shapes=SHAPES, observers=[8, 1, 0, 1],
             near_max={'class': 12, 'regular_graphs': 18, 'regular_bipartite_graphs': 18, 'bipartite_graphs': 18,
                       'bicliques': 24, 'letter_P_graphs': 18, 'degree_distribution_graphs': 18, 'partitions': 24,
                       'balanced_partitions': 16, 'weighted_induced_graphs': 20, 'induced_graphs': 20},
             sessions=[])
    for c, ops, wt in (('graph', graph, 1), ('di', di, .4 if graph else 1), ('vset', vset, .3 if graph else 1)):
        if ops:
            d['sessions'].append(s([c], {'near:' + k: v for k, v in ops.items()}, len=10, cap=4, seed=0, weight=wt))
    d.update(kw)
    return d


P = {
    'C01': [dict(n=12, events=1800, perr=0, sessions=[
        s(ALL, mix(BASE, {k: 3 for k in BOOL}, {k: 2 for k in UPD}, {k: 2 for k in CMP},
                   w('invert bool copy', 2), w('add pop remove_some'), HOUSE), seed=4)])],
    'C02': [dict(n=12, events=1300, perr=.02, drain=.1, sessions=[
        s(ALL, mix(BASE, ALGEBRA, UPD, MUT, w('copy', 6), w('iter', 4), w('next', 12), w('audit', 6),
                   w('quotient_update remainder_update flipall', 1), w('drop'), w('twin', 4))),
        s(['graph'], mix(BASE, GIN, w('to_vset to_ev forbidden', 2), w('audit', 8), w('drop')), seed=4),
        s(['di'], mix(BASE, DIN, w('audit', 5), w('drop')), seed=4)])],
    'C03': [dict(n=14, events=1700, perr=0, sessions=[
        s(ALL, mix(BASE, KNUTH, KNUTH, w('quotient_update remainder_update'), w('union'), HOUSE), seed=4)])],
    'C04': [dict(n=14, events=1500, perr=.03, sessions=[
        s(ALL, mix(BASE, UNARY, UNARY, SELECT, SELECT, w('flip flipall', 3), HOUSE), seed=4)])],
    'C05': [dict(n=12, events=1800, perr=0, sessions=[
        s(ALL, mix(BASE, {k: 3 for k in SIZED}, w('len', 4), w('join symmetric_difference complement'),
                   HOUSE), seed=4)])],
    'C06': [dict(n=12, events=2500, perr=0, iters=['iter', 'rand'], drain=.8, sessions=[
        s(ALL, mix(BASE, w('iter', 6), w('next', 3), w('choice pop', 3), w('text', 2), w('union join clear'), w('draws', .5), HOUSE))], bigdraws=.15),
            dict(n=2, events=14, bigdraws=1, hugedraws=1, sessions=[s(['set'], mix(BASE, w('iter draws')), len=12)])],
    'C07': [dict(n=12, events=2500, perr=0, iters=['min', 'max'], drain=.9, sessions=[
        s(ALL, mix(BASE, w('iter', 8), w('next', 3), w('union join'), w('drop')))])],
    'C08': [dict(n=12, events=1700, perr=.2, sessions=[
        s(ALL, mix(BASE, {k: 4 for k in MUT}, w('pop clear', -2), w('flipall'), w('contains union'),
                   w('update intersection_update difference_update'), w('audit', 2), w('drop')))])],
    'C09': [dict(n=12, events=1700, perr=.12, sessions=[
        s(ALL, mix(w('new', 10), w('contains', 10), w('copy', 2), w('including excluding'), HOUSE))])],
    'C10': [dict(n=10, events=1300, perr=0, sessions=[
        s(ALL, mix(BASE, w('reload', 4), w('fdump fload', 4), w('samedump', 6), w('gc litter'),
                   w('union join complement difference copy'), HOUSE, {'restart': .7}), all=True, len=80)])],
    'C11': [dict(n=12, events=1200, perr=.1, sessions=[
        s(ALL, mix(BASE, w('probability', 8), w('join complement union'), HOUSE), seed=4)])],
    'C12': [dict(n=12, events=1300, perr=.08, sessions=[
        s(ALL, mix(BASE, {k: 3 for k in COST}, w('union join complement gc'), HOUSE), seed=4)])],
    'C13': [dict(n=12, events=1600, perr=0, sessions=[
        s(NOEV, mix(BASE, {k: 4 for k in RECO}, w('union join complement symmetric_difference'), HOUSE),
          seed=4)])],
    'C14': [dict(n=14, events=1300, perr=.04, graph_m=[1, 7], sessions=[
        gs(w('graphs', 1), len=40)])],
    'C15': [dict(n=16, events=1500, perr=.02, graph_m=[1, 7], graph_n=6, sessions=[gs(G_NAMED)])],
    'C16': [dict(n=16, events=1300, perr=0, graph_m=[1, 8], graph_n=6, sessions=[gs(G_REG)])],
    'C17': [dict(n=14, events=1300, perr=.02, graph_m=[1, 7], graph_n=6, sessions=[gs(G_PART)])],
    'C18': [dict(n=14, events=1000, perr=0, graph_m=[1, 7], graph_n=6, sessions=[
        gs(w('class')), gs(mix(BASE, w('forbidden', 4), w('drop')), seed=3, weight=.5)])],
    'C19': [dict(n=14, events=1600, perr=.02, di_m=[1, 7], sessions=[
        s(['di'], DI, seed=0, cap=6, len=50), s(['di'], mix(BASE, DIN, w('drop')), seed=3, len=40)])],
    'C20': [dict(n=14, events=1300, perr=.03, sessions=[
        s(['graph'], mix(G_SEARCH, G_NAMED, G_REG, G_PART, G_CLASS, w('reliability to_vset to_ev')),
          seed=1, cap=6, len=15),
        s(['di'], mix(DI, DIN), seed=1, cap=6, len=15),
        s(['graph', 'vset', 'ev', 'di'], mix(BASE, ALGEBRA, VS, w('iter uniquery')), len=15, bad=0),
        s(['set'], mix(BASE, ALGEBRA, w('iter uniquery')), len=15, bad=0, weight=.4)])],
    'C21': [dict(n=10, events=1800, perr=.15, sessions=[
        s(ALL, mix(BASE, MUT, w('contains union complement including'), w('baduni', 3), w('uniquery', 5),
                   w('independent_sets graphs rooted_forests'), HOUSE), all=True, len=10, bad=.4,
          custom_vset=.4, seed=1)])],
    'C22': [dict(n=12, events=1800, perr=.03, vset_n=6, sessions=[
        s(['vset'], VS, seed=0, cap=6, len=40, custom_vset=.6)])],
    'C23': [dict(n=12, events=1700, perr=0, graph_m=[1, 7], sessions=[
        s(['graph'], mix(BASE, w('to_vset to_ev', 5), w('graphs union complement forests'), w('drop')),
          seed=3, len=25)])],
    'C24': [dict(n=14, events=1500, perr=.02, set_n=[1, 7], sessions=[
        s(ALL, mix(BASE, ALGEBRA, w('iter'), w('gc litter', 4), w('drop', 4), w('audit', 3)), len=30),
        s(['graph'], mix(BASE, G_SEARCH, G_NAMED, G_REG, G_PART, w('class forbidden reliability to_vset to_ev'),
                         w('gc litter', 3), w('drop', 3), w('audit', 2)), len=30),
        s(['graph', 'vset', 'di'], mix(BASE, DI, DIN, VS, BOOL, w('gc litter', 2), w('drop', 2), w('audit')),
          len=30, weight=.6)])],
    'C25': [dict(n=10, events=700, perr=0, omp=4, graph_m=[2, 8], graph_n=6, sessions=[
        s(['graph'], mix(BASE, mix(G_SEARCH, G_NAMED, G_REG, G_PART), w('class forbidden reliability'),
                         GIN, w('threads', 12), w('drop')), len=40, cap=8),
        s(['graph', 'vset', 'di'], mix(BASE, DI, DIN, VS, BOOL, w('threads', 5)), len=30, weight=.5)])],
    'C26': [dict(n=16, events=1400, perr=.02, graph_m=[1, 7], graph_n=6, sessions=[
        s(['graph'], mix(BASE, GIN, w('audit'), w('drop')), seed=4, len=40),
        s(['di'], mix(BASE, DIN, w('audit'), w('drop')), seed=4, len=30, weight=.4)])],
    'C27': [dict(n=12, events=900, perr=.04, graph_m=[1, 8], graph_n=6, sessions=[
        gs(w('reliability'), len=25)])],
}

BASE1 = w('new', 2)
NEARSET = w('near:hitting near:invert near:constrained')
for _id, _more in {
    'C01': [wide(6, mix(BASE1, {k: 3 for k in BOOL}, UPD, UPD, CMP, CMP, w('bool copy audit add')),
                 near=w('near:invert')),
            deep(6, mix(BASE1, BOOL, BOOL, UPD, CMP, w('litter gc')))],
    'C02': [wide(8, mix(BASE, ALGEBRA, UPD, MUT, w('copy', 6), w('iter', 4), w('next', 12), w('audit', 6)))],
    'C03': [wide(8, mix(BASE1, KNUTH, KNUTH, w('quotient_update remainder_update union audit')), maxfam=150)],
    'C04': [wide(8, mix(BASE1, UNARY, UNARY, SELECT, SELECT, w('flip flipall audit', 2)), near=NEARSET)],
    'C05': [wide(6, mix(BASE1, {k: 3 for k in SIZED}, w('len', 4), w('join symmetric_difference complement'))),
            deep(8, mix(BASE1, {k: 2 for k in SIZED}, w('len', 3), w('union symmetric_difference litter')))],
    'C06': [wide(6, mix(BASE1, w('iter', 6), w('next', 3), w('choice pop', 3), w('text', 2), w('union join')), iters=['iter', 'rand'],
                 drain=.7)],
    'C07': [wide(6, mix(BASE1, w('iter', 8), w('next', 3), w('union join')), iters=['min', 'max'], drain=.8)],
    'C08': [wide(8, mix(BASE, {k: 4 for k in MUT}, w('pop clear', -2), w('flipall contains union update', 1),
                        w('intersection_update difference_update audit')), perr=.15)],
    'C09': [wide(8, mix(w('new', 8), w('contains', 10), w('copy', 2), w('including excluding')), perr=.1,
                 near=w('near:constrained', 4))],
    'C10': [wide(6, mix(BASE, w('reload', 4), w('fdump fload', 4), w('samedump', 4), w('union join difference copy'),
                        {'restart': .7}), all=True),
            deep(8, mix(BASE1, w('reload fdump fload', 3), w('samedump union'), w('litter', 3), {'restart': .5}),
                 all=True, heavy=6000)],
    'C11': [wide(6, mix(BASE, w('probability', 8), w('join union')))],
    'C12': [wide(6, mix(BASE, COST, COST, w('union join'))),
            deep(6, mix(BASE1, COST, w('union symmetric_difference')))],
    'C13': [wide(8, mix(BASE, {k: 3 for k in RECO}, w('union join symmetric_difference')), NOEV)],
    'C14': [near(12, w('graphs', 1), events=260)],
    'C15': [near(14, G_NAMED)],
    'C16': [near(14, G_REG)],
    'C17': [near(14, G_PART)],
    'C18': [near(12, w('class', 3), near_max={'class': 14}),
            near(6, w('forbidden'), graph_m=[8, 20], sessions=[
                s(['graph'], mix(BASE, w('near:forbidden', 4), w('drop')), seed=3, len=20)])],
    'C19': [near(14, None, DI)],
    'C20': [near(8, mix(G_SEARCH, G_NAMED, G_REG, G_PART), mix(DI), VS)],
    'C22': [near(10, None, None, VS)],
    'C23': [wide(6, mix(BASE, w('to_vset to_ev', 5), w('union join')), ['graph']),
            deep(6, mix(BASE1, w('to_vset to_ev', 4), w('union')), ['graph'])],
    'C24': [wide(6, mix(BASE, ALGEBRA, w('iter'), w('audit', 3), w('gc litter', 4)), near=NEARSET),
            deep(6, mix(BASE1, BOOL, UPD, CMP, SIZED, COST, w('to_vset to_ev including excluding'),
                        w('litter gc audit', 2))),
            near(6, mix(G_SEARCH, G_NAMED, G_REG, G_PART), mix(DI), VS, heavy=600)],
    'C25': [near(8, mix(G_SEARCH, G_NAMED, G_REG, G_PART, w('class')), mix(DI), VS, omp=8, workers=4)],
}.items():
    P[_id] += _more



# -- families too large to list, judged by Diagram.tla
BIGCON = {'bipartite_graphs': 18, 'regular_graphs': 18, 'regular_bipartite_graphs': 18,
          'degree_distribution_graphs': 18, 'letter_P_graphs': 18, 'partitions': 20, 'balanced_partitions': 16,
          'weighted_induced_graphs': 18, 'induced_graphs': 22, 'bicliques': 22}
BIGLIM = dict({k: 40 for k in ('join', 'meet', 'remainder')}, quotient=60, hitting=60,
              **{k: 100 for k in ('subsets', 'supersets', 'nonsubsets', 'nonsupersets', 'minimal', 'maximal')})


def huge(n, ops, classes=NOEV, **kw):
    """Operations on families of any size."""
    d = dict(n=n, driver='big', events=100, classes=classes, set_n=[8, 110], graph_m=[10, 45], graph_n=16,
             di_m=[8, 20], di_n=7, vset_n=45, perr=0, shape_p=1,
             shapes=[x for x in SHAPES if x not in ('complete', 'bip')], maxnodes=300, con_max=BIGCON,
             oplimit=BIGLIM, ops=mix(ops, w('audit'), w('src', 2)))
    d.update(kw)
    return d


def huge_graphs(n, ops, classes, gops=None, **kw):
    """Graph constructors whose families are too large to list."""
    d = dict(n=n, driver='big', events=18, classes=classes, graph_m=[8, 22], graph_n=12, di_m=[6, 14], di_n=7,
             vset_n=24, perr=0, shapes=SHAPES, maxnodes=1200, con_max=BIGCON, oplimit=BIGLIM, cap=8, seedn=0,
             len=20, ops=ops)
    if gops:
        d['graphops'] = sorted(gops)
    d.update(kw)
    return d


LONG = ['longpath', 'ring', 'star', 'star', 'fan', 'pairs', 'spider', 'comb', 'ladder', 'cactus', 'parts', 'tree']


def long_graphs(n, ops, classes, gops=None, **kw):
    """Constructors on long narrow graphs: hundreds of edges, vertices,
    components, and degrees."""
    d = huge_graphs(n, ops, classes, gops, events=8, graph_m=[130, 300], graph_n=400, di_n=400, vset_n=300, shapes=LONG,
                    shape_p=1, long=[133, 150, 200, 262, 290], maxnodes=4000, hard=6000, width=4, seconds=60, len=6,
                    con_max={'partitions': 150, 'balanced_partitions': 133})
    d.update(kw)
    return d


WIDESHAPES = LONG + ['spokes', 'spokes', 'rails', 'twohubs', 'layers', 'random', 'random']


def wide_in(n, ops, c='graph', **kw):
    """Constructors within a small family of subgraphs of a graph with hundreds
    of edges, whose frontier may hold hundreds of vertices."""
    ops = {k: v for k, v in ops.items() if 'bicliques' not in k and 'bipartite' not in k}
    return wide(n, mix(BASE, ops), [c], **dict(dict(
        graph_m=[130, 300], di_m=[130, 300], shapes=WIDESHAPES, shape_p=1, long=[133, 150, 262], plant=1, fit=.9,
        fam_k=[4, 8, 12, 12], events=130, len=30), **kw))


CON = w('construct', 8)
for _id, _more in {
    'C01': [huge(8, mix(BOOL, UPD, CMP, CMP, w('invert bool copy litter')), maxnodes=800)],
    'C02': [huge(6, mix(BOOL, UPD, UPD, MUT, w('copy', 4), w('iter rand reload flip'), w('audit', 8)), ALL)],
    'C03': [huge(8, mix(KNUTH, KNUTH, w('union')))],
    'C04': [huge(8, mix(UNARY, UNARY, SELECT, SELECT, w('flip', 2)))],
    'C05': [huge(8, mix(SIZED, SIZED, w('len', 6), w('union symmetric_difference complement')), maxnodes=800)],
    'C06': [huge(4, w('iter rand choice pop union invert', 2), ALL)],
    'C07': [huge(6, w('min_iter max_iter union invert', 2), ALL)],
    'C08': [huge(6, mix({k: 3 for k in MUT}, w('update intersection_update contains')), ALL)],
    'C09': [huge(6, mix(w('contains', 8), w('src', 6), w('union')), ALL)],
    'C10': [huge(6, mix(w('reload', 6), w('union symmetric_difference invert litter gc eq')), ALL, maxnodes=1500)],
    'C11': [huge(6, mix(w('prob', 6), w('union complement join')), maxnodes=800)],
    'C12': [huge(8, mix(COST, COST, w('union symmetric_difference complement')), maxnodes=600)],
    'C13': [huge(8, mix(RECO, RECO, w('union symmetric_difference complement')))],
    'C14': [huge_graphs(8, CON, ['graph'], w('graphs'), events=14),
            long_graphs(6, CON, ['graph'], w('graphs')),
            long_graphs(2, CON, ['graph'], w('graphs'), shapes=['star', 'star', 'fan'])],
    'C15': [huge_graphs(8, mix(CON, w('len')), ['graph'], G_NAMED),
            long_graphs(6, CON, ['graph'], G_NAMED)],
    'C16': [huge_graphs(8, mix(CON, w('len')), ['graph'], G_REG),
            long_graphs(6, CON, ['graph'], G_REG)],
    'C17': [huge_graphs(8, mix(CON, w('len')), ['graph'], G_PART),
            long_graphs(6, CON, ['graph'], G_PART)],
    'C19': [huge_graphs(8, mix(CON, w('len inside')), ['di'], events=30),
            long_graphs(6, CON, ['di']),
            long_graphs(3, CON, ['di'], shapes=['ring'], long=[290], trav=['as-is', 'as-is', 'as-is', 'dfs', 'bfs'], events=12)],
    'C22': [huge_graphs(4, mix(CON, w('len')), ['vset'], events=30, vset_n=34),
            long_graphs(4, CON, ['vset'])],
    'C23': [huge(6, mix(w('src', 3), w('union len')), ['ev'], events=50, graph_m=[4, 22])],
    'C24': [huge(8, mix(BOOL, KNUTH, UNARY, SIZED, SELECT, MUT, RECO, COST, w('len prob iter reload'),
                        w('litter gc audit', 3)), ALL),
            huge_graphs(6, mix(CON, w('inside', 2), w('litter gc audit', 2)), ['graph', 'di', 'vset'])],
    'C25': [huge_graphs(6, mix(CON, w('inside')), ['graph', 'di', 'vset'], omp=8, workers=4)],
    'C26': [huge_graphs(8, mix(w('construct', 2), w('inside', 5)), ['graph', 'graph', 'di'], seedn=2)],
    'C27': [huge_graphs(6, w('reliability'), ['graph'], events=16, maxnodes=600)],
}.items():
    P[_id] += _more

for _id, _more in {
    'C01': [fat(3, mix(BOOL, UPD, CMP, w('copy bool')))],
    'C03': [fat(3, mix(KNUTH, w('union')))],
    'C04': [fat(4, mix(UNARY, SELECT, w('flip')))],
    'C05': [fat(6, mix(SIZED, w('len')))],
    'C07': [fat(4, w('iter', 4), iters=['min', 'max'], drain=1)],
    'C08': [fat(3, mix(MUT, w('pop contains')))],
    'C10': [fat(3, w('reload union samedump'))],
    'C12': [fat(4, COST)],
    'C13': [fat(4, mix(RECO, w('union')))],
}.items():
    P[_id] += _more

for _id, _more in {
    'C14': [wide_in(4, w('in:graphs', 8))],
    'C15': [wide_in(6, inside(G_NAMED))],
    'C16': [wide_in(6, inside(G_REG), events=80)],
    'C19': [wide_in(6, DIN, 'di')],
    'C24': [wide_in(2, mix(GIN, w('litter gc audit', 3)))],
    'C26': [wide_in(6, GIN), wide_in(3, DIN, 'di')],
}.items():
    P[_id] += _more

# graph objects of the user's own type (GraphSet.converters)
for _id, _profs in P.items():
    for _p in _profs:
        if _p.get('driver') != 'big':
            _p.setdefault('conv', .3 if _id in ('C09', 'C20', 'C21') else .08)


def grid(n, two=None, three=None, **kw):
    """Every family over three elements, every pair of families over two."""
    return dict(dict(n=n, perr=0, observers=[8, 1, 0, 1],
                     grid=[dict(n=k, **{a: sorted(b) for a, b in g.items()})
                           for k, g in ((2, two), (3, three)) if g]), **kw)


for _id, _p in {
    'C01': grid(5, {'pairs': mix(BOOL, UPD, CMP)}, {'unary': w('invert copy bool')}),
    'C03': grid(5, {'pairs': mix(KNUTH, w('quotient_update remainder_update'))}),
    'C04': grid(5, {'pairs': SELECT, 'args': mix(SELECT, w('flip'))},
                {'unary': w('minimal maximal hitting complement'), 'args': mix(SELECT, w('flip'))}),
    'C05': grid(5, None, {'unary': mix(SIZED, w('len'))}),
    'C08': grid(5, {'args': w('add remove discard contains flip')},
                {'unary': w('pop clear'), 'args': w('add remove discard contains flip')}),
    'C09': grid(5, None, {'args': w('contains')}),
    'C10': grid(5, {'pairs': w('samedump')}, {'unary': w('reload')}),
    'C11': grid(5, None, {'unary': w('probability')}),
    'C12': grid(5, None, {'unary': COST}),
    'C13': grid(5, None, {'unary': RECO}),
    'C23': grid(1, None, {'unary': w('to_vset to_ev')}, cls='graph'),
}.items():
    P[_id].append(_p)


def graph_grid(n, c, ops, k=1, **kw):
    """Every graph of two to four vertices (digraph of two or three)."""
    return dict(dict(n=n, perr=.02, observers=[8, 1, 0, 1], graph_grid=[c, {a: b * k for a, b in ops.items()}]), **kw)


for _id, _p in {
    'C14': [graph_grid(2, 'graph', w('graphs', 60))],
    'C15': [graph_grid(2, 'graph', G_NAMED, 5)],
    'C16': [graph_grid(2, 'graph', G_REG, 12)],
    'C17': [graph_grid(2, 'graph', G_PART, 16)],
    'C18': [graph_grid(2, 'graph', w('class', 50)), graph_grid(1, 'graph', w('forbidden', 40))],
    'C19': [graph_grid(2, 'di', DI, 6), graph_grid(1, 'di', DIN, 6)],
    'C22': [graph_grid(2, 'vset', VS, 15)],
    'C26': [graph_grid(2, 'graph', GIN, 2)],
    'C27': [graph_grid(2, 'graph', w('reliability', 25))],
}.items():
    P[_id] += _p
