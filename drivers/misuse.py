"""Calls of the public entry points with right and wrong options."""
import json
import random
from vf.util import *

NONE = '<none>'
MODES = ['connected_components', 'fuzzy_clusters', 'leader']
TYPES = ['word', 'punct', 'number', 'emoji', 'mention', 'hashtag', 'url', 'email', 'smiley']
VALUES = dict(
    mode=MODES, functions=['similarity', 'distance', NONE],
    metric=[NONE, 'cosine', 'jaccard', 'overlap', 'dice', 'binary_cosine'],
    ordering=[NONE, 'freq', 'crc32'], tokenizer=[NONE, 'callable', 'str', 'list'],
    graph=['bipartite', 'inner_edge', 'three_parts', 'inner_edge_other'],
    keep=[NONE, NONE, NONE, 'empty', 'word+', 'all+'] + TYPES, drop=[NONE, NONE, NONE, 'empty', 'word+', 'all+'] + TYPES,
    lengths=[NONE, 'min', 'max', 'min<max', 'min=max', 'min>max'])
RELATIONAL = ['pairwise', 'blocking', 'sorted_neighborhood', 'adaptive_sorted_neighborhood', 'quickjoin', 'nn_descent', 'nn_descent_full']
OPTIONS = {fn: ['mode', 'functions'] for fn in RELATIONAL}
OPTIONS.update(passjoin=['mode'], laesa=['mode'], intersection_index=['mode', 'metric'],
               monopartite_projection=['metric', 'graph'], WordTokenizer=['keep', 'drop', 'lengths'])
for j in ('all_pairs', 'ppjoin', 'ppjoin_plus'):
    OPTIONS[j] = ['metric', 'ordering', 'tokenizer']


def graph(kind, n):
    import networkx as nx
    g = nx.Graph()
    for k in range(n):
        g.add_node(k, bipartite='P' if k % 2 else 'Q')
    for k in range(n - 1):
        g.add_edge(k, k + 1)
    if kind == 'inner_edge':
        g.add_node(n, bipartite='P')
        g.add_edge(1, n)
    elif kind == 'inner_edge_other':
        g.add_node(n, bipartite='Q')
        g.add_edge(0, n)
    elif kind == 'three_parts':
        g.add_node(n, bipartite='R')
        g.add_edge(1, n)
    return g


def call(c):
    a = c['args']
    fn = c['fn']
    get = lambda o: None if a[o] == NONE else a[o]
    n = c['n']
    data = list(range(1, n + 1))
    # far: no two items are anywhere near each other, a refusal is due all the same
    far = c.get('far', False)
    if far:
        data = [10 ** (k % 6) * (k + 1) for k in range(n)]
    name = lambda k: chr(ord('a') + k % 26) * (k % 7 + 3) if far else 'item%d' % k
    names = [name(k) for k in range(1, n + 1)]
    kw = {}
    if 'mode' in a and not (a['mode'] == 'connected_components' and c['defaults']):
        kw['mode'] = get('mode')
    if 'functions' in a:
        if a['functions'] == 'similarity':
            kw['similarity'] = lambda x, y: -abs(x - y)
        elif a['functions'] == 'distance':
            kw['distance'] = lambda x, y: abs(x - y)
    radius = -1 if a.get('functions') == 'similarity' else 1
    if fn in RELATIONAL:
        import fog.clustering as m
        if fn in ('pairwise', 'blocking', 'sorted_neighborhood', 'adaptive_sorted_neighborhood'):
            kw['radius'] = radius
            if fn == 'blocking':
                kw['block'] = lambda x: x // 4 + 1
            return getattr(m, fn)(data, **kw)
        return getattr(m, fn)(data, radius, **kw)
    if fn == 'laesa':
        from fog.clustering.laesa import laesa
        return laesa(data, lambda x, y: abs(x - y), 1, **kw)
    if fn == 'passjoin':
        from fog.clustering import passjoin
        from cfog.metrics import levenshtein_distance
        return passjoin(names, 1, levenshtein_distance, **kw)
    if fn == 'intersection_index':
        from fog.clustering import intersection_index
        return intersection_index(names, metric=get('metric'), radius=.3, **kw)
    if fn in ('all_pairs', 'ppjoin', 'ppjoin_plus'):
        from fog.clustering import ppjoin as m
        import fog.clustering as f
        if a['tokenizer'] != NONE:
            kw['tokenizer'] = dict(callable=list, str='list', list=[list])[a['tokenizer']]
        if a['ordering'] != NONE or not c['defaults']:
            kw['token_ordering'] = get('ordering')
        rows = names
        return getattr(f, fn)(rows if a['tokenizer'] != NONE else [list(r) for r in rows], .5, metric=get('metric'), **kw)
    if fn == 'monopartite_projection':
        from fog.graph import monopartite_projection
        if a['metric'] != NONE or not c['defaults']:
            kw['metric'] = get('metric')
        monopartite_projection(graph(a['graph'], n), 'P', **kw)
        return [1]
    from fog.tokenizers.words import WordTokenizer
    for o in ('keep', 'drop'):
        if a[o] != NONE:
            v = a[o]
            # 'word+x' is two values, 'all+x' every known type and x
            vs = [] if v == 'empty' else TYPES if v == 'all+' else ['word', 'url'] if v == 'word+' else TYPES + [v[4:]] if v[:4] == 'all+' else ['word', v[5:]] if v[:5] == 'word+' else [v]
            if c['n'] % 2:
                vs = vs[::-1]
            kw[o] = dict(set=set, tuple=tuple, list=list)[c['box']](vs)
    k = c['n']
    lo, hi = {NONE: (None, None), 'min': (k, None), 'max': (None, k), 'min<max': (k, k + 2), 'min=max': (k, k), 'min>max': (k + 1, k)}[a['lengths']]
    if lo is not None:
        kw['min_word_length'] = lo
    if hi is not None:
        kw['max_word_length'] = hi
    return WordTokenizer(**kw)('word @mention #hashtag 45')


def op_call(c):
    n = 0
    try:
        for _ in call(c):
            n += 1
    except Exception as ex:
        return dict(r=type(ex).__name__, before=n)
    # how many answers a right call has is judged elsewhere
    return dict(r='ok', before=0)


OPS = dict(call=op_call)


def expand(prop, cases):
    seen = set()
    k = 0
    for t in cases:
        key = json.dumps(t, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        k += 1
        yield dict(op='call', fn=t['fn'], args=t['args'], n=2 + k % 5, defaults=k % 2 == 0, box=['list', 'set', 'tuple'][k % 3],
                   far=False)
        yield dict(op='call', fn=t['fn'], args=t['args'], n=2 + k % 4, defaults=k % 2 == 1, box=['list', 'set', 'tuple'][k % 3],
                   far=True)


def gen(prop, rng, tier):
    for _ in range(20000 if tier == 'thorough' else 4000):
        fn = rng.choice(sorted(OPTIONS))
        args = {}
        for o in OPTIONS[fn]:
            v = rng.choice(VALUES[o])
            if rng.random() < .12 and o not in ('functions', 'graph', 'lengths', 'tokenizer') and v not in (NONE, 'empty'):
                k = rng.randrange(len(v) + 1)
                if o in ('keep', 'drop') and rng.random() < .3:
                    args[o] = rng.choice(['word+words', 'all+Word', 'word+', 'all+nope', 'word+punct', 'word+mentions'])
                    continue
                v = rng.choice([v.upper(), v.title(), v + ' ', ' ' + v, v[:k], v[k:], v[:k] + 'x' + v[k:], v + 's', v[::-1], v.replace('_', '-'), 'leader', ''])
                if v == 'empty':
                    v = 'x'
            args[o] = v
        yield dict(op='call', fn=fn, args=args, n=rng.choice([2, 3, 4, 5, 7, 12]), defaults=rng.random() < .5, box=rng.choice(['list', 'set', 'tuple']),
                   far=rng.random() < .35)
