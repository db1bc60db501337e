"""Replays into fog.graph and fog.join."""
import random
from vf.util import *


def names(n, m, kind):
    """Node objects: projected 1..n, others n+1..n+m."""
    if kind == 'int':
        ids = list(range(1, n + m + 1))
    elif kind == 'str':
        ids = ['n%02d' % x for x in range(1, n + m + 1)]
    elif kind == 'zero':
        ids = list(range(n + m))
    elif kind == 'tuple':
        ids = [('n', x) for x in range(n + m)]
    elif kind == 'rev':
        ids = list(range(1000, 1000 - n - m, -1))
    elif kind == 'mixed':
        ids = [x if x % 2 else 'n%d' % x for x in range(1, n + m + 1)]
    else:
        ids = [frozenset([x]) for x in range(1, n + m + 1)]
    return ids, {v: k for k, v in enumerate(ids, 1)}


def extra(x):
    """Attributes of a node, of every kind of value."""
    return {'mark': x, 'label': [None, '', 'node', 'node'][x % 4], 'size': [0, 1, -1.5][x % 3], 'flag': x % 2 == 0, 'tags': [[], ['a', x]][x // 2 % 2]}


def op_proj(c):
    import networkx as nx
    from fog.graph import monopartite_projection
    n, m = c['n'], c['m']
    ids, back = names(n, m, c['ids'])
    part = c.get('part', 'bipartite')
    g = nx.Graph()
    order = list(range(1, n + m + 1))
    random.Random(c.get('shuf', 0)).shuffle(order)
    for x in order:
        g.add_node(ids[x - 1], **{part: 'P' if x <= n else 'R' if x in c.get('third', []) else 'Q', **extra(x)})
    wname = c.get('weight', 'weight')
    for u, v, w in c['es']:
        if w == 1 and c.get('implicit'):
            g.add_edge(ids[u - 1], ids[v - 1])
        else:
            g.add_edge(ids[u - 1], ids[v - 1], **{wname: w if c.get('wscale', 1) == 1 else w / c['wscale'] if c['wscale'] > 0 else -w * c['wscale']})
    for u, v in c.get('bad', []):
        g.add_edge(ids[u - 1], ids[v - 1])
    before = (sorted((back[x], repr(sorted(a.items()))) for x, a in g.nodes(data=True)),
              sorted((sorted((back[a], back[b])), repr(d)) for a, b, d in g.edges(data=True)))
    kw = {}
    if part != 'bipartite':
        kw['part'] = part
    if wname != 'weight':
        kw['weight'] = wname
    if c['metric'] != 'none':
        kw['metric'] = c['metric']
    if c['th']:
        kw['threshold'] = c['th'][0] / c['th'][1]
    if not c['topo']:
        kw['use_topology'] = False
    if not c['check']:
        kw['bipartition_check'] = False
    try:
        r = monopartite_projection(g, 'P', **kw)
    except TypeError as ex:
        if c['check']:
            return dict(refused=True)
        raise
    after = (sorted((back[x], repr(sorted(a.items()))) for x, a in g.nodes(data=True)),
             sorted((sorted((back[a], back[b])), repr(d)) for a, b, d in g.edges(data=True)))
    out = []
    for a, b, w in r.edges(data=wname):
        if w is None:
            out.append([back[a], back[b], [0, 0]])
        elif 'cosine' in c['metric']:
            p = rat(w * w, 30000)
            out.append([back[a], back[b], [-p[0] if w < 0 else p[0], p[1]]])
        else:
            out.append([back[a], back[b], rat(w)])
    return dict(refused=False, r=out, nodes=[back[x] for x in r.nodes], mutated=before != after,
                attrs_lost=any(a != {part: 'P', **extra(back[x])} for x, a in r.nodes(data=True)))


def weighted(c):
    import networkx as nx
    ids, back = names(c['n'], 0, c.get('ids', 'int'))
    g = nx.Graph()
    order = list(range(1, c['n'] + 1))
    random.Random(c.get('shuf', 0)).shuffle(order)
    for x in order:
        g.add_node(ids[x - 1])
    wname = c.get('weight', 'weight')
    for u, v, w in c['es']:
        g.add_edge(ids[u - 1], ids[v - 1], **{wname: w / c.get('unit', 1)})
    return g, back, wname


def op_floatsam(c):
    from fog.graph import floatsam_sparsification
    g, back, wname = weighted(c)
    u = c['unit']
    kw = {}
    if c['start'] != 0:
        kw['starting_treshold'] = c['start'] / u
    kw['learning_rate'] = c['lr'] / u
    if c['md'] >= 0:
        kw['max_drifter_size'] = c['md']
    if wname != 'weight':
        kw['weight'] = wname
    if c['remove']:
        kw['remove_edges'] = True
    t = floatsam_sparsification(g, **kw)
    return dict(t=integer(t * u), left=[[back[a], back[b], integer(w * u)] for a, b, w in g.edges(data=wname)],
                order=g.order())


def op_sizes(c):
    from fog.graph.utils import component_sizes, second_largest_component_size
    g, back, wname = weighted(c)
    if c['cut'] == 0:
        s, l = list(component_sizes(g)), second_largest_component_size(g)
    else:
        f = lambda u, v, a: a[wname] >= c['cut']
        s, l = list(component_sizes(g, f)), second_largest_component_size(g, edge_filter=f)
    return dict(sizes=[integer(x) for x in s], second=0 if l is None else integer(l))


def op_hashjoin(c):
    import warnings
    warnings.simplefilter('ignore')
    from fog.join import hashjoin
    it = c.get('it', 'str')

    def mk(side, n):
        if it == 'row':         # rows of a table, that compare equal and cannot be hashed
            return [dict(side=side, value='same') for k in range(n)]
        if it == 'list':
            return [[side, k] for k in range(n)]
        return [side + str(k) for k in range(n)]
    L, R = mk('L', len(c['lk'])), mk('R', len(c['rk']))
    ident = (lambda x: id(x)) if it in ('row', 'list') else (lambda x: x)
    back = {ident(x): ('L', k) for k, x in enumerate(L, 1)}
    back.update({ident(x): ('R', k) for k, x in enumerate(R, 1)})
    name = dict(str=lambda k: 'k%d' % k, zero=lambda k: k - 1, empty=lambda k: 'k' * (k - 1), tuple=lambda k: (k,) * (k - 1), none=lambda k: [None, '', 0][k - 1] if k < 4 else str(k))[c.get('kk', 'str')]
    byid = {}
    for x, ks in zip(L, c['lk']):
        byid[ident(x)] = [name(k) for k in ks]
    for x, ks in zip(R, c['rk']):
        byid[ident(x)] = [name(k) for k in ks]
    keyof = lambda x: byid[ident(x)]

    def cont(xs, how):
        if how == 'gen':
            return (x for x in xs)
        if how == 'iter':
            return iter(xs)
        if how == 'set' and it == 'str':
            return set(xs)
        return tuple(xs) if how == 'tuple' else xs
    if c['single']:
        kw = dict(key=lambda x: keyof(x)[0])
    else:
        how = c['khow']

        def keys(x):
            k = keyof(x)
            return (y for y in k) if how == 'gen' else set(k) if how == 'set' else list(k)
        kw = dict(keys=keys)
    snapL, snapR = list(L), list(R)
    pos = lambda x, side: back.get(ident(x), ('?', 0))[1] if back.get(ident(x), ('?', 0))[0] == side else -1
    r = []
    for p in hashjoin(cont(L, c['lc']), cont(R, c['rc']), **kw):
        a, b = p
        r.append([pos(a, 'L'), pos(b, 'R')])
    return dict(r=r, mutated=L != snapL or R != snapR)


OPS = dict(proj=op_proj, floatsam=op_floatsam, sizes=op_sizes, hashjoin=op_hashjoin)

IDS = ['int', 'str', 'rev', 'mixed', 'fset', 'zero', 'tuple']
METRICS = ['none', 'jaccard', 'overlap', 'dice', 'binary_cosine', 'cosine']


def expand(prop, tcases):
    seen = set()
    for n, t in enumerate(tcases):
        if prop == 'C21':
            # every weighted graph once, the metric and threshold dealt round
            if n % 5 and len(tcases) > 90000:
                continue
            m = max([v for _, v, _ in t['es']] + [t['n']]) - t['n']
            yield dict(op='proj', n=t['n'], m=max(m, 1), es=t['es'], metric=t['metric'], th=list(t['th']), ids=IDS[n % 7],
                       topo=(n // 5) % 2 == 0, check=n % 3 > 0, shuf=n, bip=True)
        elif prop == 'C22':
            key = repr(t)
            if key in seen or (len(tcases) < 300000 and len(seen) % 4):
                seen.add(key)
                continue
            seen.add(key)
            yield dict(op='floatsam', n=t['n'], es=t['es'], start=t['start'], lr=t['lr'], md=t['md'], unit=[1, 4][n % 2],
                       remove=n % 3 == 0, ids=IDS[n % 7], shuf=n)
        elif prop == 'C23':
            one = all(len(x) == 1 for x in t['lk'] + t['rk'])
            cs = ['list', 'tuple', 'gen', 'iter', 'set']
            yield dict(op='hashjoin', lk=t['lk'], rk=t['rk'], single=one and n % 2 == 0, khow=['list', 'gen', 'set'][n % 3],
                       lc=cs[n % 5], rc=cs[n // 5 % 5], it=['str', 'row', 'list'][n % 3], kk=['str', 'zero', 'empty', 'tuple', 'none'][n % 5])


def gen_C21(rng, k):
    for n in range(2500 * k):
        N, M = rng.randint(0, 7), rng.randint(0, 6)
        p = rng.choice([.15, .3, .6, .9])
        if n % 30 == 0:
            N, M, p = rng.randint(8, 25), rng.randint(5, 20), rng.choice([.05, .15, .3])
        if n % 500 == 30:
            N, M, p = rng.choice([120, 200, 300]), rng.randint(60, 150), .02
        lo = rng.choice([0, 1, 1, -2])
        es = [[u, v, rng.randint(lo, rng.choice([1, 2, 4]))] for u in range(1, N + 1) for v in range(N + 1, N + M + 1) if rng.random() < p]
        rng.shuffle(es)
        metric = rng.choice(METRICS) if lo > 0 else rng.choice(METRICS + ['cosine'] * 4)
        th = rng.choice([[], [], [1, 2], [1, 3], [3, 4], [1, 4], [1, 1], [2, 3], [0, 1], [-1, 2]] + ([[0, 1], [-1, 3], [-1, 1]] if lo < 0 else []))
        if metric == 'none' and th:
            th = [rng.randint(0, 4), 1]
        c = dict(op='proj', n=N, m=M, es=es, metric=metric, th=th, ids=rng.choice(IDS), topo=rng.random() < .6,
                 check=rng.random() < .7, shuf=rng.randrange(10 ** 6), bip=True, implicit=rng.randint(0, 1),
                 part=rng.choice(['bipartite', 'kind']), weight=rng.choice(['weight', 'count']))
        if rng.random() < .3 and not c['implicit']:
            c['wscale'] = rng.choice([4, 4096, 1 << 20, 1 << 30, -4096])
        if rng.random() < .04 and N > 1:
            c.update(bad=[[1, 2]], bip=False, check=True)
        elif rng.random() < .04 and M > 1:
            c.update(bad=[[N + 1, N + 2]], bip=False, check=True)
        elif rng.random() < .06 and M > 1:
            # a third part, which only matters when it has edges
            c.update(third=rng.sample(range(N + 1, N + M + 1), rng.randint(1, M - 1)), check=True)
            ends = set('R' if v in c['third'] else 'Q' for _, v, _ in es)
            c['bip'] = len(ends) < 2
        yield c


def rand_wgraph(rng, n, hi):
    p = rng.choice([.1, .2, .4, .8])
    kind = rng.random()
    if kind < .6:
        pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < p]
    elif kind < .75:
        pairs = [(1, j) for j in range(2, n + 1)]
    elif kind < .9:
        pairs = [(i, i + 1) for i in range(1, n)]
    else:
        h = n // 2
        pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if (i <= h) == (j <= h)] + ([(1, n)] if n > 1 else [])
    if n > 30:
        pairs = [(rng.randint(1, j - 1), j) for j in range(2, n + 1)] + [tuple(sorted(rng.sample(range(1, n + 1), 2))) for _ in range(n // 2)]
    return [[i, j, rng.randint(1, hi)] for i, j in sorted(set(pairs))]


def gen_C22(rng, k):
    for n in range(1500 * k):
        N = rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 20, 21]) if n % 30 else rng.choice([54, 55, 60])
        if n % 500 == 9:
            N = rng.choice([120, 200, 330])
        hi = rng.choice([1, 3, 8, 16, 16, 100])
        es = rand_wgraph(rng, N, hi)
        yield dict(op='floatsam', n=N, es=es, start=rng.choice([0, 0, 1, 3, 20] if hi < 90 else [0, 1, 60, 80, -5]), lr=rng.choice([1, 1, 2, 3] if n % 5 else [4, 5, 9]), md=rng.choice([-1, -1, 0, 1, 2, 3, 50]),
                   unit=rng.choice([1, 4, 32]), remove=rng.random() < .5, ids=rng.choice(IDS), shuf=rng.randrange(1000),
                   weight=rng.choice(['weight', 'w']))
        N = rng.choice([0, 1, 2, 3, 5, 9, 14])
        yield dict(op='sizes', n=N, es=rand_wgraph(rng, N, 5) if N else [], cut=rng.choice([0, 1, 2, 4]), shuf=rng.randrange(1000), ids=rng.choice(IDS))


def gen_C23(rng, k):
    for n in range(3000 * k):
        U = rng.choice([2, 4, 8] if n % 10 else [12, 40])
        single = rng.random() < .4
        mk = lambda: [[rng.randint(1, U) for _ in range(1 if single else rng.choice([0, 1, 1, 2, 3, 3] + ([8, 15] if n % 10 == 0 else [])))] for _ in range(rng.choice([0, 1, 2, 4, 7] if n % 25 else [1, 2, 5, 12, 30, 90] if n % 200 else [120, 260, 430]))]
        yield dict(op='hashjoin', lk=mk(), rk=mk(), single=single, khow=rng.choice(['list', 'gen', 'set']),
                   lc=rng.choice(['list', 'tuple', 'gen', 'iter', 'set']), rc=rng.choice(['list', 'tuple', 'gen', 'iter', 'set']),
                   it=rng.choice(['str', 'str', 'row', 'list']), kk=rng.choice(['str', 'zero', 'empty', 'tuple', 'none']))


GEN = dict(C21=gen_C21, C22=gen_C22, C23=gen_C23)


def gen(prop, rng, tier):
    return GEN[prop](rng, 2 if tier == 'quick' else 12)
