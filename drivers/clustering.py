"""Replays clustering problems into fog.clustering and records the clusters as positions."""
import random
from collections import deque
from fractions import Fraction
from vf.util import *

MODES = ['connected_components', 'fuzzy_clusters']


# ---------------------------------------------------------------- helpers
def inf(mx):
    return float('inf') if mx < 0 else mx


def bounds(c):
    kw = {}
    if c['mn'] != 2 or c.get('explicit'):
        kw['min_size'] = c['mn']
    if c['mx'] >= 0:
        kw['max_size'] = c['mx']
    return kw


def labels(n, kind):
    """Distinct items for positions 1..n, with the way back."""
    if kind == 'str':
        items = ['item%03d' % p for p in range(1, n + 1)]
    elif kind == 'tuple':
        items = [('x', p) for p in range(1, n + 1)]
    elif kind == 'zero':
        items = list(range(n))
    elif kind == 'falsy':
        # an item may well be false
        items = (['', 0, None, (), frozenset()] + ['x%d' % p for p in range(n)])[:n]
    else:
        items = list(range(101, 101 + n))
    return items, {it: p for p, it in enumerate(items, 1)}


def contain(items, how):
    if how == 'tuple':
        return tuple(items)
    if how == 'gen':
        return (x for x in items)
    if how == 'iter':
        return iter(items)
    if how == 'dict' and all(type(x) is not list for x in items) and len(set(items)) == len(items):
        return dict.fromkeys(items)
    if how in ('deque', 'dict'):
        return deque(items)
    return items


def relation(c, back):
    """kwargs for the user-supplied similarity, from the edges of the case."""
    E = set()
    for x, y in c['e']:
        E.add((x, y))
        E.add((y, x))
    # an item is similar to itself
    E.update((p, p) for p in back.values())
    kind = c.get('rel', 'sim')
    if kind == 'sim':
        return dict(similarity=lambda a, b: (back[a], back[b]) in E)
    if kind == 'truthy':
        return dict(similarity=lambda a, b: [1, 'yes', (0,), 2.5][back[a] % 4] if (back[a], back[b]) in E else [0, '', None, 0.0, []][back[b] % 5])
    if kind == 'falsy':
        return dict(distance=lambda a, b: [0, '', None, 0.0, False][back[a] % 5] if (back[a], back[b]) in E else [1, 'far', .25, True][back[b] % 4])
    if kind == 'sim0':
        return dict(similarity=lambda a, b: [0, 0.0, 2, .5][back[b] % 4] if (back[a], back[b]) in E else [-1, -.5][back[a] % 2], radius=0)
    if kind == 'simminus':
        return dict(similarity=lambda a, b: [-3, -3.0, 0, 2][back[b] % 4] if (back[a], back[b]) in E else [-4, -3.25][back[a] % 2], radius=-3)
    if kind == 'frac':
        return dict(distance=lambda a, b: Fraction(1, 3 + back[b] % 2) if (back[a], back[b]) in E else Fraction(1, 2), radius=Fraction(1, 3))
    if kind == 'inf':
        return dict(distance=lambda a, b: 10 ** 20 if (back[a], back[b]) in E else float('inf'), radius=10 ** 20)
    if kind == 'floatr':
        return dict(distance=lambda a, b: [7.25, 7, 0][back[b] % 3] if (back[a], back[b]) in E else [7.5, 8][back[a] % 2], radius=7.25)
    if kind == 'floats':
        return dict(similarity=lambda a, b: [11.5, 12, 11.75][back[b] % 3] if (back[a], back[b]) in E else [11, 11.25][back[a] % 2], radius=11.5)
    if kind == 'simr':
        # similar pairs sit exactly on the radius, or above
        return dict(similarity=lambda a, b: (5 + (back[a] + back[b]) % 2) if (back[a], back[b]) in E else 4.5, radius=5)
    if kind == 'simneg':
        return dict(similarity=lambda a, b: 0.25 if (back[a], back[b]) in E else 0.125, radius=0.25)
    if kind == 'dist':
        return dict(distance=lambda a, b: 0 if (back[a], back[b]) in E else 2)
    if kind == 'dist0':
        return dict(distance=lambda a, b: 0 if (back[a], back[b]) in E else 1, radius=0)
    return dict(distance=lambda a, b: (3 - (back[a] * back[b]) % 2) if (back[a], back[b]) in E else 3.5, radius=3)


def permuting(perm):
    """Deliver the results of a pool in an order chosen by the case."""
    import multiprocessing.pool as mp
    if not hasattr(mp, '_vf_orig'):
        mp._vf_orig = mp.Pool.imap_unordered
    orig = mp._vf_orig

    def patched(self, func, it, chunksize=1):
        res = list(orig(self, func, it, chunksize))
        random.Random(perm).shuffle(res)
        return iter(res)
    mp.Pool.imap_unordered = patched if perm is not None else orig


def positions(clusters, back):
    out = []
    for cl in clusters:
        if not isinstance(cl, (list, tuple)):
            raise TypeError('cluster is not a list')
        out.append([back.get(x, 0) for x in cl])
    return out


def observed(items, snapshot, **kw):
    return dict(mutated=not (len(items) == len(snapshot) and all(a is b for a, b in zip(items, snapshot))), **kw)


# ---------------------------------------------------------------- operations
def op_pairwise(c):
    from fog.clustering import pairwise, pairwise_leader, pairwise_fuzzy_clusters, pairwise_connected_components
    n = c['n']
    items, back = labels(n, c.get('it', 'int'))
    kw = bounds(c)
    if c.get('key'):
        # the relation is defined on keys; several items may share one
        keys = {it: 'k%d' % p for it, p in back.items()}
        kb = {'k%d' % p: p for p in back.values()}
        kw.update(relation(c, kb))
        kw['key'] = lambda it: keys[it]
    else:
        kw.update(relation(c, back))
    if c.get('procs', 1) != 1:
        kw['processes'] = c['procs']
        kw['chunk_size'] = c['cs']
        permuting(c.get('perm'))
    elif 'cs' in c:
        kw['chunk_size'] = c['cs']
    snap = list(items)
    data = contain(items, c.get('cont', 'list'))
    if c.get('direct'):
        f = dict(leader=pairwise_leader, fuzzy_clusters=pairwise_fuzzy_clusters,
                 connected_components=pairwise_connected_components)[c['mode']]
        res = f(data, **kw)
    elif c['mode'] == 'connected_components' and c.get('nomode'):
        res = pairwise(data, **kw)
    else:
        res = pairwise(data, mode=c['mode'], **kw)
    cl = positions(list(res), back)
    again = cl
    if c.get('procs', 1) != 1 and c['mode'] == 'fuzzy_clusters':
        # the same call, its results delivered in another order
        permuting(c.get('perm', 0) + 1)
        again = positions(list(pairwise(items, mode=c['mode'], **kw)), back)
    return observed(items, snap, cl=cl, again=again)


def op_pairwise_dup(c):
    """Items that compare equal; the relation is on values."""
    from fog.clustering import pairwise
    V = set((x, y) for x, y in c['vrel']) | set((y, x) for x, y in c['vrel'])
    kw = bounds(c)
    if c.get('procs', 1) != 1:
        kw.update(processes=c['procs'], chunk_size=c['cs'])
        permuting(c.get('perm'))
    items = list(c['vals'])
    snap = list(items)
    res = pairwise(items, similarity=lambda a, b: (a, b) in V, **kw)
    return observed(items, snap, cl=[[integer(x) for x in cl] for cl in res])


# a block may be any value, a false one included
BLOCKS = dict(int=lambda b: b, zero=lambda b: b - 1, str=lambda b: 'b' * (b - 1), tuple=lambda b: (b, 'b'))


def op_blocking(c):
    from fog.clustering import blocking
    items, back = labels(c['n'], c.get('it', 'int'))
    kw = bounds(c)
    kw.update(relation(c, back))
    name = BLOCKS[c.get('bk', 'int')]
    bl = {it: [name(b) for b in c['bl'][p - 1]] for it, p in back.items()}
    if c['single']:
        kw['block'] = lambda it: bl[it][0]
    elif c.get('bgen'):
        kw['blocks'] = lambda it: (b for b in bl[it])
    else:
        kw['blocks'] = lambda it: list(bl[it])
    if c['mode'] != 'connected_components' or c.get('explicit'):
        kw['mode'] = c['mode']
    if c.get('procs', 1) != 1:
        kw['processes'] = c['procs']
        permuting(c.get('perm'))
    snap = list(items)
    cl = positions(list(blocking(contain(items, c.get('cont', 'list')), **kw)), back)
    again = alone = cl
    if c.get('procs', 1) != 1:
        permuting(c.get('perm', 0) + 1)
        again = positions(list(blocking(items, **kw)), back)
        kw['processes'] = 1
        alone = positions(list(blocking(items, **kw)), back)
    return observed(items, snap, cl=cl, again=again, alone=alone)


FALSY = [None, '', 0, False, ()]


def op_keycol(c):
    from fog.clustering import key_collision
    items, back = labels(c['n'], c.get('it', 'int'))
    kw = bounds(c)

    def enc(k, p):
        return ('key%d' % k, k, (k, 0), float(k) / 2)[c['n'] % 4] if k else FALSY[p % len(FALSY)]
    bl = {it: [enc(k, p + n) for n, k in enumerate(c['bl'][p - 1])] for it, p in back.items()}
    if c['single']:
        kw['key'] = lambda it: bl[it][0]
        if c.get('mergearg'):
            kw['merge'] = c['mergearg'] == 1
    else:
        how = c.get('khow', 'list')

        def keys(it):
            if not bl[it] and c.get('nonekeys'):
                return None
            if how == 'gen':
                return (k for k in bl[it])
            if how == 'set':
                return set(bl[it])
            return list(bl[it])
        kw['keys'] = keys
        if not (c['merge'] and c.get('nomerge')):
            kw['merge'] = c['merge']
    snap = list(items)
    res = list(key_collision(contain(items, c.get('cont', 'list')), **kw))
    return observed(items, snap, cl=positions(res, back))


def snm(c, fname):
    import fog.clustering as fc
    items, back = labels(c['n'], c.get('it', 'int'))
    kw = bounds(c)
    kw.update(relation(c, back))
    if c['w'] != 10 or c.get('explicit'):
        kw['window'] = c['w']

    def mk(ks):
        if ks == list(range(1, c['n'] + 1)) and c.get('natural'):
            return None          # items are generated in their natural order
        return lambda it: ks[back[it] - 1]
    if c['multi']:
        kw['keys'] = contain([mk(ks) for ks in c['keys']], c.get('kcont', 'list'))
    elif mk(c['keys'][0]) is not None:
        kw['key'] = mk(c['keys'][0])
    if c['mode'] != 'connected_components' or c.get('explicit'):
        kw['mode'] = c['mode']
    snap = list(items)
    res = list(getattr(fc, fname)(contain(items, c.get('cont', 'list')), **kw))
    return observed(items, snap, cl=positions(res, back))


def op_snm(c):
    return snm(c, 'sorted_neighborhood')


def op_asnm(c):
    return snm(c, 'adaptive_sorted_neighborhood')


def frac(c):
    return c['num'] / c['den']


def tokens(ts, how):
    if how == 'str':
        return ''.join(chr(96 + t) for t in ts)
    if how == 'tuple':
        return tuple('t%d' % t for t in ts)
    return ['t%d' % t for t in ts]


def op_iidx(c):
    from fog.clustering import intersection_index
    n = c['n']
    kw = bounds(c)
    if c.get('usekey'):
        items, back = labels(n, 'str')
        tk = {it: tokens(c['toks'][p - 1], c['tok']) for it, p in back.items()}
        kw['key'] = lambda it: tk[it]
    else:
        items = [tokens(ts, 'tuple') + () for ts in c['toks']]
        # tuples with the same content are told apart by identity
        back = None
    if c['metric'] != 'jaccard' or c.get('explicit'):
        kw['metric'] = c['metric']
    if (c['num'], c['den']) != (4, 5) or c.get('explicit'):
        kw['radius'] = frac(c)
    if c['mode'] != 'connected_components':
        kw['mode'] = c['mode']
    snap = list(items)
    res = list(intersection_index(contain(items, c.get('cont', 'list')), **kw))
    if back is not None:
        return observed(items, snap, cl=positions(res, back))
    byid = {}
    for p, it in enumerate(items, 1):
        byid.setdefault(id(it), []).append(p)
    cl = [[byid.get(id(x), [0])[0] for x in cc] for cc in res]
    return observed(items, snap, cl=cl)


def metric_space(c):
    """items, way back, distance"""
    if 'pts' in c:
        items = [tuple(p) for p in c['pts']]
        dist = lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])
    else:
        items = [S(s) for s in c['strs']]
        from Levenshtein import distance as lev
        dist = lambda a, b: lev(a, b)
    if 'unit' in c:
        whole = dist
        dist = lambda a, b: whole(a, b) / c['unit']
    return items, {it: p for p, it in enumerate(items, 1)}, dist


def radius(c):
    return c['r'] / c['unit'] if 'unit' in c else c['r']


def op_vptree(c):
    from fog.clustering import vp_tree
    items, back, dist = metric_space(c)
    random.seed(c['seed'])
    snap = list(items)
    res = list(vp_tree(contain(items, c.get('cont', 'list')), distance=dist, radius=radius(c), **bounds(c)))
    return observed(items, snap, cl=positions(res, back))


def op_passjoin(c):
    from fog.clustering import passjoin
    items, back, dist = metric_space(c)
    kw = bounds(c)
    if not c['sort'] or c.get('explicit'):
        kw['sort'] = c['sort']
    if c['mode'] != 'connected_components':
        kw['mode'] = c['mode']
    snap = list(items)
    res = list(passjoin(contain(items, c.get('cont', 'list')), c['r'], dist, **kw))
    return observed(items, snap, cl=positions(res, back))


def op_quickjoin(c):
    from fog.clustering import quickjoin
    items, back, dist = metric_space(c)
    kw = bounds(c)
    if c.get('assim'):
        # a similarity whose complement is the metric, with exactly representable values
        kw['similarity'] = lambda a, b: 1 - dist(a, b) / 64
        kw['radius'] = 1 - radius(c) / 64
    else:
        kw['distance'] = dist
        kw['radius'] = radius(c)
    for k in ('block_size', 'vp_tree', 'seed', 'mode', 'beta'):
        if k in c:
            kw[k] = c[k]
    if c.get('procs', 1) != 1:
        kw['processes'] = c['procs']
        permuting(c.get('perm'))
    data = items
    if c.get('dups'):
        # repeated items are handed over too; they are the same items
        data = items + [items[d % len(items)] for d in c['dups']]
    snap = list(data)
    cl = positions(list(quickjoin(contain(data, c.get('cont', 'list')), **kw)), back)
    again = cl
    if 'seed' in c and c['n'] < 200 and not c.get('vp_tree'):
        permuting(c.get('perm', 0) + 1)
        again = positions(list(quickjoin(data, **kw)), back)
    return observed(data, snap, cl=cl, again=again)


def op_laesa(c):
    from fog.clustering import laesa
    items, back, dist = metric_space(c)
    kw = bounds(c)
    for k in ('pivots', 'seed', 'mode'):
        if k in c:
            kw[k] = c[k]
    snap = list(items)
    res = list(laesa(contain(items, c.get('cont', 'list')), dist, radius(c), **kw))
    return observed(items, snap, cl=positions(res, back))


# tokens that are easy to mistake for one another: same crc32, case, accents, spaces, prefixes
TWINS = ['plumless', 'buckeroo', 'codding', 'gnu', 'exhibiters', 'schlager', 'a', 'A', '\u00e1', 'a\u0301', 'ab', 'Ab', 'aa', ' a', '\u00df', 'ss', '1', '01', 'zzz']


def token_names(c):
    how = c.get('names', 't')
    if how == 'int':
        return lambda t: t - 3
    if how == 'twins':
        return lambda t: TWINS[t] if t < len(TWINS) else 't%d' % t
    return lambda t: 't%d' % t


def op_ppjoin(c):
    import fog.clustering as fc
    n = c['n']
    name = token_names(c)
    if c.get('tokenizer'):
        # distinct record objects, tokenized by a callable
        items = ['%d:%s' % (p, ' '.join('t%d' % t for t in ts)) for p, ts in enumerate(c['toks'], 1)]
        how = c['tokenizer']

        def tok(s):
            body = s.split(':', 1)[1]
            r = [name(int(x[1:])) for x in body.split(' ')] if body else []
            return r if how == 'list' else (x for x in r) if how == 'gen' else tuple(r)
        kw = dict(tokenizer=tok)
        back = {it: p for p, it in enumerate(items, 1)}
        ident = lambda x: back.get(x, 0)
    else:
        items = [[name(t) for t in ts] for ts in c['toks']]
        byid = {id(it): p for p, it in enumerate(items, 1)}
        ident = lambda x: byid.get(id(x), 0)
        kw = {}
    if c['metric'] != 'jaccard' or c.get('explicit'):
        kw['metric'] = c['metric']
    if c.get('order', 'default') != 'default':
        kw['token_ordering'] = c['order'] if c['order'] != 'none' else None
    snap = list(items)
    deep = [list(x) if isinstance(x, list) else x for x in items]
    f = getattr(fc, c['fn'])
    if c['fn'] == 'ppjoin' and c.get('flag'):
        kw[c['flag']] = True
    res = list(f(contain(items, c.get('cont', 'list')), frac(c), **kw))
    pairs = []
    for p in res:
        a, b = p
        pairs.append([ident(a), ident(b)])
    o = observed(items, snap, pairs=pairs)
    if any(x != y for x, y in zip(items, deep)):
        o['mutated'] = True
    return o


def minhash_call(c, extra):
    from fog.clustering import minhash
    kw = dict(seed=c['seed'])
    if c.get('nokey'):
        # the items are their own tokens, in some order
        items = [tokens(t, c['tok']) for t in c['toks']]
        back = {it: p for p, it in enumerate(items, 1)}
        tk = {it: it for it in items}
    else:
        items, back = labels(c['n'], 'str')
        tk = {it: tokens(c['toks'][p - 1], c['tok']) for it, p in back.items()}
        kw['key'] = lambda it: tk[it]
    if c['h'] != 256:
        kw['h'] = c['h']
    kw.update(extra)
    if (c['num'], c['den']) != (4, 5) or c.get('explicit'):
        kw['radius'] = frac(c)
    if c.get('numpy'):
        kw['use_numpy'] = True
    snap = list(items)
    res = list(minhash(contain(items, c.get('cont', 'list')), **kw))
    return items, snap, back, tk, positions(res, back)


def op_minhash(c):
    extra = {} if 'bands' not in c else dict(bands=c['bands'])
    items, snap, back, tk, cl = minhash_call(c, extra)
    cl2 = minhash_call(c, extra)[4]
    return observed(items, snap, cl=cl, again=cl2)


def op_minhash_bands(c):
    from fog.lsh import MinHash
    items, snap, back, tk, cl = minhash_call(c, dict(bands=c['bands']) if 'bands' in c else {})
    mh = MinHash(c['h'], seed=c['seed'], use_numpy=bool(c.get('numpy')))
    sigs = [[[int(x) >> 16, int(x) & 0xffff] for x in mh.create_signature(tk[it])] for it in items]
    return observed(items, snap, cl=cl, sigs=sigs)


def op_nnd(c):
    import fog.clustering as fc
    items, back, dist = metric_space(c)
    kw = bounds(c)
    if c.get('assim'):
        kw['similarity'] = lambda a, b: 1 - dist(a, b) / 64
        r = 1 - radius(c) / 64
    else:
        kw['distance'] = dist
        r = radius(c)
    for k in ('k', 'seed', 'mode', 'rho', 'delta'):
        if k in c:
            kw[k] = c[k]
    f = getattr(fc, c['fn'])
    snap = list(items)
    res = positions(list(f(contain(items, c.get('cont', 'list')), r, **kw)), back)
    res2 = positions(list(f(list(items), r, **kw)), back)
    return observed(items, snap, cl=res, again=res2)


OPS = dict(pairwise=op_pairwise, pairwise_dup=op_pairwise_dup, blocking=op_blocking, keycol=op_keycol,
           snm=op_snm, asnm=op_asnm, iidx=op_iidx, vptree=op_vptree, passjoin=op_passjoin,
           quickjoin=op_quickjoin, ppjoin=op_ppjoin, minhash=op_minhash, minhash_bands=op_minhash_bands, minhash_auto=op_minhash_bands,
           nnd=op_nnd, laesa=op_laesa)


# ---------------------------------------------------------------- generation
def size(rng, usual, big, often=.03):
    return rng.choice(big) if rng.random() < often else rng.choice(usual)


def rand_graph(rng, n):
    p = rng.choice([0, .05, .1, .2, .3, .5, .8, 1])
    if n > 20 and rng.random() < .15:
        # one hub
        h = rng.choice([1, n, rng.randint(1, n)])
        return [sorted([h, j]) for j in range(1, n + 1) if j != h and rng.random() < .97]
    if n > 20:
        p = rng.choice([.5, 1, 2, 4]) / n
        if rng.random() < .3:
            # long runs of similar items, in the order of the data or not
            o = list(range(1, n + 1))
            if rng.random() < .3:
                rng.shuffle(o)
            s = rng.choice([7, 18, 30, n])
            return [sorted([o[a], o[b]]) for a in range(n) for b in range(a + 1, n) if a // s == b // s and rng.random() < .97]
    kind = rng.random()
    if kind < .6:
        return [[i, j] for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < p]
    if kind < .75:      # chain in a shuffled order
        o = list(range(1, n + 1))
        rng.shuffle(o)
        return [sorted(o[k:k + 2]) for k in range(n - 1) if rng.random() < .85]
    if kind < .9:       # stars
        o = list(range(1, n + 1))
        rng.shuffle(o)
        return [sorted([o[k], o[k - k % 4]]) for k in range(n) if k % 4]
    # cliques
    o = list(range(1, n + 1))
    rng.shuffle(o)
    s = rng.randint(2, 5)
    return [sorted([o[a], o[b]]) for a in range(n) for b in range(a + 1, n) if a // s == b // s]


def rand_bounds(rng, n, lo=2):
    r = rng.random()
    if r < .5:
        return dict(mn=2, mx=-1)
    mn = rng.randint(lo, 4)
    mx = rng.choice([-1, -1, mn, mn + 1, mn + 2, n])
    if mx >= 0 and mx < mn:
        mx = mn
    if n > 7 and rng.random() < .2:
        mn = rng.randint(2, 9)
        mx = rng.choice([-1, mn, mn + 2, rng.randint(mn, 16), rng.randint(mn, 16)])
    if rng.random() < .08:
        # bounds only single items, or nothing at all, can satisfy
        mn, mx = rng.choice([(lo, 1), (2, 1), (2, 0), (3, 2), (4, 1)])
    return dict(mn=mn, mx=mx, explicit=1)


def a_seed(rng):
    return 0 if rng.random() < .12 else rng.randrange(10 ** 6) if rng.random() < .8 else rng.randrange(2 ** 30, 2 ** 31 - 1)


RELS = ['sim', 'simr', 'simneg', 'dist', 'dist0', 'distr', 'truthy', 'falsy', 'sim0', 'simminus', 'frac', 'inf', 'floatr', 'floats']
CONTS = ['list', 'list', 'tuple', 'gen', 'iter', 'dict', 'deque']


def common(rng):
    return dict(rel=rng.choice(RELS), cont=rng.choice(CONTS), it=rng.choice(['int', 'str', 'tuple', 'zero', 'falsy']))


def dedupe(ts):
    seen = set()
    for t in ts:
        k = repr(sorted(t.items()))
        if k not in seen:
            seen.add(k)
            yield t


def expand(prop, tcases):
    for n, t in enumerate(dedupe(tcases)):
        rng = random.Random(n)
        if prop == 'C02':
            c = dict(op='pairwise', mode='connected_components', n=t['n'], e=t['e'], mn=t['mn'], mx=t['mx'],
                     rel=RELS[n % 12], cont=CONTS[n % 7], direct=n % 2, nomode=n % 3)
            yield c
            if n % 2 == 0:
                yield dict(c, procs=2 + n % 2, cs=t['cs'], perm=n)
        elif prop == 'C03':
            yield dict(op='pairwise', mode='fuzzy_clusters', n=t['n'], e=t['e'], mn=t['mn'], mx=t['mx'],
                       rel=RELS[n % 12], cont=CONTS[n % 7], direct=n % 2, explicit=1)
        elif prop == 'C04':
            yield dict(op='pairwise', mode='leader', n=t['n'], e=t['e'], mn=t['mn'] if t['mn'] > 1 else 2, mx=t['mx'],
                       rel=RELS[n % 12], cont=CONTS[n % 7], direct=n % 2, explicit=1)
        elif prop in EXPAND:
            yield from EXPAND[prop](n, t, rng)


def deal(n, t):
    """Options dealt round the enumerated cases."""
    return dict(rel=RELS[n % 12], cont=CONTS[n % 7], it=['int', 'str', 'tuple', 'zero', 'falsy'][n % 5])


def ex_blocking(n, t, rng):
    c = dict(op='blocking', mode=MODES[n % 2], n=t['n'], e=t['e'], bl=t['bl'], single=False, bgen=n % 3 % 2, bk=sorted(BLOCKS)[n // 6 % 4],
             mn=t['mn'], mx=t['mx'], **deal(n // 2, t))
    if all(len(b) == 1 for b in t['bl']):
        c['single'] = n % 2 == 0
    yield c
    if n % 25 == 0:
        yield dict(c, procs=2, perm=n)


def ex_keycol(n, t, rng):
    c = dict(op='keycol', mode='x', n=t['n'], bl=t['bl'], single=t['kind'] == 'single', merge=t['kind'] == 'merge',
             nomerge=n % 2, khow=['list', 'gen', 'set'][n % 3], nonekeys=n // 3 % 2, mergearg=n % 3, cont=CONTS[n % 7],
             it=['int', 'str', 'zero', 'falsy'][n // 5 % 4], mn=t['mn'], mx=t['mx'])
    yield c


def ex_snm(op):
    def f(n, t, rng):
        mn, mx = [(2, -1), (2, -1), (2, 3), (3, -1), (2, 2)][n % 5]
        yield dict(op=op, mode=MODES[n // 5 % 2], n=t['n'], e=t['e'], keys=t['keys'], multi=n % 7 == 0, natural=0, w=t['w'],
                   mn=mn, mx=mx, explicit=1, **deal(n // 3, t))
    return f


def ex_passjoin(n, t, rng):
    pal = PALETTES[n % 3]
    mn, mx = [(2, -1), (2, 2)][n // 7 % 2]
    yield dict(op='passjoin', strs=[paint(s, pal) for s in t['strs']], n=len(t['strs']), r=t['k'], sort=t['sort'], mode=MODES[n % 2],
               cont=CONTS[n % 7], mn=mn, mx=mx)


def ex_ppjoin(n, t, rng):
    yield dict(op='ppjoin', fn=t['fn'] if n % 3 else 'ppjoin_plus', n=t['n'], toks=[rng.sample(x, len(x)) for x in t['toks']],
               metric=t['metric'], num=t['num'], den=t['den'], order=['default', 'freq', 'crc32', 'none'][n // 3 % 4],
               cont=CONTS[n % 7], explicit=1, **(dict(tokenizer=['list', 'gen', 'tuple'][n % 3]) if n % 2 else {}))


def line(t, rng, times):
    """A set of points on a line, embedded and ordered in several ways."""
    for s in range(times):
        p = list(t['pts'])
        rng.shuffle(p)
        flip = rng.random() < .5
        yield s, dict(pts=[[0, x] if flip else [x + s, 7] for x in p], n=len(p), r=t['r'])


def ex_quickjoin(n, t, rng):
    for s, c in line(t, rng, 8):
        mn, mx = [(2, -1), (2, 3), (3, -1)][s % 3]
        yield dict(op='quickjoin', seed=1000 * n + s, cont=CONTS[s % 7], block_size=2 + s % 2, vp_tree=s % 3 == 0, mode=MODES[s % 2],
                   mn=mn, mx=mx, **c)


def ex_vptree(n, t, rng):
    for s, c in line(t, rng, 8):
        yield dict(op='vptree', seed=1000 * n + s, cont=CONTS[s % 7], mn=t['mn'], mx=t['mx'], explicit=1, **c)


def ex_laesa(n, t, rng):
    for s, c in line(t, rng, 8):
        mn, mx = [(2, -1), (2, 3), (3, -1)][s % 3]
        c = dict(op='laesa', seed=1000 * n + s, cont=CONTS[s % 7], mode=MODES[s % 2], mn=mn, mx=mx, **c)
        if s % 4:
            c['pivots'] = s % 7
        yield c


def ex_iidx(n, t, rng):
    mn, mx = [(2, -1), (2, 2), (3, -1)][n // 4 % 3]
    yield dict(op='iidx', mode=MODES[n % 2], n=t['n'], toks=[x + x[:n % 2] for x in t['toks']], metric=t['metric'], num=t['num'], den=t['den'],
               usekey=1, tok=['str', 'tuple', 'list'][n % 3], cont=CONTS[n % 7], explicit=1, mn=mn, mx=mx)


def ex_minhash(n, t, rng):
    for s in range(6):
        c = dict(op='minhash_bands', mode='connected_components', n=t['n'], toks=t['toks'], metric='jaccard', num=t['num'], den=t['den'], h=t['h'],
                 bands=t['bands'], seed=100 * n + s, tok=['str', 'tuple', 'list'][s % 3], cont=CONTS[s % 7], explicit=1, mn=2, mx=-1)
        if s % 3 == 2:
            c['numpy'] = 1
        yield c
        yield dict(c, op='minhash')


def ex_nnd(n, t, rng):
    for s, c in line(t, rng, 20):
        yield dict(op='nnd', fn=['nn_descent', 'nn_descent_full'][s % 2], seed=1000 * n + s, cont=CONTS[s % 7], mode=MODES[s // 2 % 2],
                   k=1 + (t['k'] + s) % 4, mn=2, mx=-1, **c)


EXPAND = dict(C05=ex_blocking, C06=ex_keycol, C07=ex_snm('snm'), C08=ex_snm('asnm'), C09=ex_passjoin, C10=ex_ppjoin, C11=ex_quickjoin,
              C12=ex_vptree, C13=ex_iidx, C14=ex_minhash, C15=ex_nnd, C34=ex_laesa)


def gen(prop, rng, tier):
    k = 2 if tier == 'quick' else 16
    yield from GEN[prop](rng, k)
    for t in range(8 if tier == 'quick' else 48):
        yield large(prop, rng, t)


# ---------------------------------------------------------------- a few large inputs
def sparse_graph(rng, n):
    """About one edge per item: runs, stars, chains and strays, in the order of the data or not; the last items are never alone."""
    o = list(range(1, n + 1))
    if rng.random() < .5:
        rng.shuffle(o)
    e = set()
    a = 0
    while a < n:
        s = rng.choice([1, 1, 2, 2, 3, 5, 9, 16])
        part = o[a:a + s]
        kind = rng.random()
        for x in range(len(part)):
            for y in range(x):
                if (y == x - 1) if kind < .4 else (y == 0) if kind < .7 else rng.random() < .9:
                    e.add(tuple(sorted((part[x], part[y]))))
        a += s
    e |= {(n - 1, n), (1, 2), tuple(sorted(rng.sample(range(1, n + 1), 2)))}
    return [list(x) for x in sorted(e)]


def sparse_toks(rng, n, U):
    toks = []
    for x in range(n):
        if toks and (x == n - 1 or rng.random() < .5):
            t = set(rng.choice(toks[-40:]))
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                t ^= {rng.randint(1, U)}
        else:
            t = set(rng.sample(range(1, U + 1), rng.randint(1, 9)))
        toks.append(sorted(t or {1}))
    return toks


def sparse_strs(rng, n, pal):
    out = [[]] if rng.random() < .5 else []
    seen = {tuple(x) for x in out}
    while len(out) < n:
        s = mutate(rng, rng.choice(out[-30:]), pal, 1 if len(out) == n - 1 else rng.randint(1, 3)) if out and (len(out) == n - 1 or rng.random() < .5) else randstr(rng, pal, rng.randint(1, 45))
        if tuple(s) not in seen:
            seen.add(tuple(s))
            out.append(s)
    return out


def large(prop, rng, t):
    n = [150, 180, 230, 270, 310, 360, 430, 520][t % 8] + rng.randint(0, 12)
    c = dict(n=n, mn=2, mx=-1, mode=MODES[(t // 2) % 2], cont=rng.choice(CONTS))
    if t % 3 == 2:
        c.update(rand_bounds(rng, 6))
    if prop in ('C02', 'C03', 'C04', 'C05', 'C07', 'C08'):
        c.update(common(rng))
        c['e'] = sparse_graph(rng, n)
    if prop in ('C02', 'C03', 'C04'):
        c.update(op='pairwise', mode=dict(C02='connected_components', C03='fuzzy_clusters', C04='leader')[prop], direct=t % 2)
        if prop != 'C04' and t % 4 == 3:
            c.update(procs=rng.choice([2, 4]), cs=rng.choice([40, 100, 130]), perm=rng.randrange(10 ** 6))
    elif prop == 'C05':
        m = rng.choice([3, 40, 120])
        c.update(op='blocking', bl=[[rng.randint(1, m) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)], single=False, bgen=t % 2, bk=rng.choice(sorted(BLOCKS)))
        for x, y in c['e']:
            if x == n - 1 or rng.random() < .7:
                c['bl'][y - 1].append(rng.choice(c['bl'][x - 1]))
        if t % 4 == 3:
            c.update(procs=2, perm=rng.randrange(10 ** 6))
    elif prop == 'C06':
        m = rng.choice([9, 60, 200])
        merge = t % 2 == 1
        c.update(op='keycol', mode='x', bl=[[rng.randint(0, m) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)], single=False, merge=merge, nomerge=rng.randint(0, 1),
                 khow=rng.choice(['list', 'gen', 'set']), nonekeys=rng.randint(0, 1), mergearg=rng.randint(0, 2), it=rng.choice(['int', 'str', 'zero', 'falsy']))
    elif prop in ('C07', 'C08'):
        keys = [rng.choice([list(range(1, n + 1)), rng.sample(range(1, n + 1), n), [rng.randint(1, 30) for _ in range(n)]]) for _ in range(1 + t % 2)]
        if t % 2:
            keys[0] = list(range(1, n + 1))
            c['e'] = [list(x) for x in sorted({tuple(x) for x in c['e']} | {(x, y) for y in range(n - 5, n + 1) for x in range(n - 5, y)})]
        c.update(op='snm' if prop == 'C07' else 'asnm', keys=keys, multi=t % 2 == 1, natural=0, kcont='list', w=rng.choice([2, 3, 5, 10, 30, 70]))
    elif prop == 'C09':
        s = sparse_strs(rng, n, PALETTES[t % 2][:rng.randint(2, 5)])
        c.update(op='passjoin', strs=s, n=len(s), r=rng.choice([1, 1, 2]), sort=t % 2 == 0)
    elif prop in ('C10', 'C13'):
        num, den = rng.choice(FRACS)
        c.update(toks=sparse_toks(rng, n, rng.choice([30, 120, 600])), num=num, den=den, explicit=1)
        if prop == 'C10':
            c.update(op='ppjoin', fn=['ppjoin', 'all_pairs', 'ppjoin_plus'][t % 3], metric=['jaccard', 'dice', 'binary_cosine'][t % 3 if t % 2 else 0],
                     order=rng.choice(['default', 'freq', 'crc32', 'none']))
        else:
            c.update(op='iidx', metric=['jaccard', 'overlap'][t % 2], usekey=1, tok=rng.choice(['str', 'tuple', 'list']))
    elif prop == 'C14':
        c.update(op='minhash_bands', mode='connected_components', toks=sparse_toks(rng, n, rng.choice([30, 120])), metric='jaccard', num=1, den=2, h=16, seed=a_seed(rng), tok='tuple',
                 explicit=1, bands=rng.choice([4, 8, 16]), mn=2, mx=-1)
    else:
        p = rand_pts(rng, n, rng.choice([60, 90, 140]))
        # the last one is close to some other
        far = [q for q in p[:-1] if [q[0], q[1] + 1] not in p]
        p[-1] = [far[0][0], far[0][1] + 1]
        c.update(pts=p, n=len(p), r=rng.choice([1, 1, 2]), seed=a_seed(rng), op=dict(C11='quickjoin', C12='vptree', C15='nnd', C34='laesa')[prop])
        if prop == 'C11':
            c.update(block_size=rng.choice([2, 10, 60, 500]), vp_tree=t % 2 == 0)
        elif prop == 'C12':
            c.pop('mode')
        elif prop == 'C15':
            c.update(fn=['nn_descent', 'nn_descent_full'][t % 2], k=rng.randint(2, 6))
        elif t % 2:
            c['pivots'] = rng.randint(1, 30)
    return c


def gen_pairwise(mode):
    def g(rng, k):
        lo = 1 if mode == 'connected_components' else 2
        for _ in range(1800 * k):
            n = size(rng, [0, 1, 2, 3, 5, 8, 12], [25, 40, 70])
            c = dict(op='pairwise', mode=mode, n=n, e=rand_graph(rng, n), direct=rng.randint(0, 1))
            c.update(common(rng))
            c.update(rand_bounds(rng, n, lo))
            if mode != 'leader':
                c['key'] = rng.randint(0, 1)
                if rng.random() < .3:
                    c['cs'] = rng.randint(1, 5)
            yield c
        if mode != 'leader':
            for _ in range(150 * k):
                n = size(rng, [0, 1, 2, 3, 4, 5, 6, 7, 9, 12], [17, 30])
                c = dict(op='pairwise', mode=mode, n=n, e=rand_graph(rng, n), procs=rng.choice([2, 3, 4, 5]),
                         cs=rng.choice([rng.randint(1, n + 2)] * 6 + [200, 600, 2000]), perm=rng.randrange(10 ** 6), direct=rng.randint(0, 1))
                c.update(common(rng))
                c.update(rand_bounds(rng, n, lo))
                c['key'] = rng.randint(0, 1)
                yield c
            # many chunks
            for _ in range(12 * k):
                n = rng.choice([18, 25, 40])
                c = dict(op='pairwise', mode=mode, n=n, e=rand_graph(rng, n), procs=2, cs=rng.choice([1, 1, 2, 3, n // 17]), perm=rng.randrange(10 ** 6))
                c.update(common(rng))
                c.update(rand_bounds(rng, n, lo))
                yield c
            # default chunk size with more than one chunk
            for _ in range(k):
                n = rng.choice([101, 130])
                e = [[i, j] for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < .006]
                yield dict(op='pairwise', mode=mode, n=n, e=e, mn=2, mx=-1, procs=2, cs=100, perm=1)
                yield dict(op='pairwise', mode=mode, n=n, e=e, mn=2, mx=-1)
        if mode == 'connected_components':
            for _ in range(150 * k):
                m = rng.randint(1, 4)
                n = rng.randint(0, 8)
                vals = [rng.randint(1, m) for _ in range(n)]
                vrel = [[a, b] for a in range(1, m + 1) for b in range(a, m + 1) if rng.random() < .5]
                V = set(map(tuple, vrel))
                e = [[i + 1, j + 1] for i in range(n) for j in range(i + 1, n)
                     if (min(vals[i], vals[j]), max(vals[i], vals[j])) in V]
                c = dict(op='pairwise_dup', n=n, vals=vals, vrel=vrel, e=e, **rand_bounds(rng, n, 1))
                if rng.random() < .2:
                    c.update(procs=2, cs=rng.randint(1, n + 1), perm=rng.randrange(1000))
                yield c
    return g


def gen_blocking(rng, k):
    for t in range(2500 * k):
        n = size(rng, [0, 1, 2, 4, 6, 9, 13], [25, 40, 60, 110])
        m = rng.randint(1, 5)
        single = rng.random() < .35
        many = []
        if t % 20 == 0:
            m, many = rng.choice([12, 30]), [8, 16, 25]
        bl = [[rng.randint(1, m) for _ in range(1 if single else rng.choice([0, 1, 1, 2, 3] + many))] for _ in range(n)]
        c = dict(op='blocking', mode=rng.choice(MODES), n=n, e=rand_graph(rng, n), bl=bl, single=single,
                 bgen=rng.randint(0, 1), bk=rng.choice(sorted(BLOCKS)))
        if t % 125 == 3:
            # one large block around one item
            n = rng.choice([70, 110, 140])
            h = rng.choice([1, n, rng.randint(1, n)])
            c.update(n=n, e=[sorted([h, j]) for j in range(1, n + 1) if j != h and rng.random() < .97], bl=[[1] for _ in range(n)])
        c.update(common(rng))
        c.update(rand_bounds(rng, n))
        if t % 18 == 0:
            c.update(procs=rng.choice([2, 3]), perm=rng.randrange(10 ** 6))
        yield c


def gen_keycol(rng, k):
    for t in range(4000 * k):
        n = size(rng, [0, 1, 2, 4, 6, 9, 13], [25, 40, 60, 110])
        m = rng.randint(1, 6)
        single = rng.random() < .35
        many = []
        if t % 20 == 0:
            m, many = rng.choice([12, 30]), [8, 16, 25]
        bl = [[rng.randint(0, m) for _ in range(1 if single else rng.choice([0, 1, 1, 2, 3, 4] + many))] for _ in range(n)]
        merge = (not single) and rng.random() < .5
        c = dict(op='keycol', mode='x', n=n, bl=bl, single=single, merge=merge, nomerge=rng.randint(0, 1),
                 khow=rng.choice(['list', 'gen', 'set']), nonekeys=rng.randint(0, 1), mergearg=rng.randint(0, 2),
                 cont=rng.choice(CONTS), it=rng.choice(['int', 'str', 'zero', 'falsy']))
        c.update(rand_bounds(rng, n, 2 if merge else 1))
        yield c


def gen_snm(op):
    def g(rng, k):
        for _ in range(3000 * k):
            n = size(rng, [0, 1, 2, 3, 5, 8, 12, 16], [25, 40, 60, 110], .03 if op == 'snm' else .08)
            multi = rng.random() < .5
            keys = []
            for _ in range(rng.choice([1, 2, 2, 3, 3, 5]) if multi else 1):
                r = rng.random()
                if r < .4:
                    keys.append(list(range(1, n + 1)))
                elif r < .7:
                    keys.append(rng.sample(range(1, n + 1), n))
                else:
                    keys.append([rng.randint(1, 3) for _ in range(n)])
            c = dict(op=op, mode=rng.choice(MODES), n=n, e=rand_graph(rng, n), keys=keys, multi=multi,
                     natural=rng.randint(0, 1), kcont=rng.choice(['list', 'tuple', 'gen']), w=rng.choice([2, 2, 3, 3, 4, 5, 10, n + 3] + ([12, 17, 24, 40] if n > 12 else []) + ([1] if op == 'snm' else [])))
            c.update(common(rng))
            if c['natural'] and c['it'] == 'falsy':
                c['it'] = 'zero'
            c.update(rand_bounds(rng, n))
            yield c
    return g


def rand_toks(rng, n, U, empty=True):
    toks = []
    for _ in range(n):
        if toks and rng.random() < .55:
            s = set(rng.choice(toks))
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                s ^= {rng.randint(1, U)}
            t = list(s)
            rng.shuffle(t)
        else:
            t = rng.sample(range(1, U + 1), rng.randint(0 if empty else 1, U))
        if not t and not empty:
            t = [1]
        if t and rng.random() < .3:
            t = t + [rng.choice(t)]
        toks.append(t)
    return toks


FRACS = [(4, 5), (1, 1), (1, 2), (1, 3), (2, 3), (3, 4), (1, 4), (1, 5), (2, 5), (3, 5), (1, 10), (3, 10), (7, 10), (9, 10), (6, 7), (1, 20), (19, 20), (24, 25)]


def gen_iidx(rng, k):
    for t in range(4000 * k):
        n = size(rng, [0, 1, 2, 4, 7, 10], [25, 40])
        if t % 250 == 0:
            n = rng.choice([90, 130])
        num, den = rng.choice(FRACS)
        if rng.random() < .2:
            # a little more, or less, than a simple ratio
            num, den = num * (1000 // den) + rng.choice([-1, 0, 1]), den * (1000 // den)
        c = dict(op='iidx', mode=rng.choice(MODES), n=n, toks=rand_toks(rng, n, rng.choice([2, 4, 7, 12, 12, 26] if t % 30 else [90, 160])),
                 metric=rng.choice(['jaccard', 'overlap']), num=num, den=den, usekey=rng.randint(0, 1),
                 tok=rng.choice(['str', 'tuple', 'list']), cont=rng.choice(CONTS), explicit=rng.randint(0, 1))
        c.update(rand_bounds(rng, n))
        if not c['usekey'] and len({id(x) for x in map(tuple, [()] * 2)}) == 1:
            # the empty tuple is a singleton: keep it apart
            c['toks'] = [t or [1] for t in c['toks']]
        yield c


def rand_pts(rng, n, span):
    pool = [[x, y] for x in range(span) for y in range(max(1, span // 3))]
    return rng.sample(pool, min(n, len(pool)))


def rand_strs(rng, n, L, alpha):
    out = []
    seen = set()
    tries = 0
    while len(out) < n and tries < 400:
        tries += 1
        s = mutate(rng, rng.choice(out), alpha, rng.randint(1, 3)) if out and rng.random() < .65 else randstr(rng, alpha, rng.randint(0, L))
        if tuple(s) not in seen:
            seen.add(tuple(s))
            out.append(s)
    return out


def rand_space(rng, n, strings=.4):
    if rng.random() < strings:
        pal = rng.choice([PALETTES[0], PALETTES[0], PALETTES[1], PALETTES[2]])[:rng.randint(2, 5)]
        s = rand_strs(rng, min(n, 40), rng.choice([3, 5, 8]), pal)
        return dict(strs=s, n=len(s), r=rng.choice([0, 1, 1, 2, 2, 3]))
    p = rand_pts(rng, n, rng.choice([4, 8, 20, 40]) if n < 30 else rng.choice([30, 40, 80]))
    c = dict(pts=p, n=len(p), r=rng.choice([0, 1, 1, 2, 3, 5, 9, 12, 17, 30] if n < 30 else [0, 1, 1, 2]))
    if rng.random() < .25:
        c['unit'] = rng.choice([4, 64])
    return c


def gen_vptree(rng, k):
    for _ in range(3000 * k):
        c = dict(op='vptree', seed=a_seed(rng), cont=rng.choice(CONTS))
        c.update(rand_space(rng, size(rng, [0, 1, 2, 3, 5, 9, 14, 22], [40, 80, 150])))
        c.update(rand_bounds(rng, c['n'], 1))
        yield c


def gen_passjoin(rng, k):
    for t in range(2500 * k):
        pal = rng.choice([PALETTES[0], PALETTES[0], PALETTES[1], PALETTES[2]])[:rng.randint(1, 5)]
        r = rng.choice([0, 1, 1, 2, 2, 3, 4])
        s = rand_strs(rng, size(rng, [1, 2, 3, 6, 10], [16, 25]), rng.choice([2, 4, 7, 11, 11, 24, 40]), pal)
        if rng.random() < .1:
            r = rng.choice([5, 6, 9, 10, 12])
        if t % 60 == 9:
            s = rand_strs(rng, rng.randint(3, 10), rng.choice([80, 140, 300]), pal)
            s += [mutate(rng, x, pal, rng.randint(1, 3)) for x in s]
            s = [list(x) for x in dict.fromkeys(map(tuple, s))]
        if rng.random() < .15:
            # many letters, no longer than the threshold or barely
            r = rng.randint(1, 6)
            s = rand_strs(rng, rng.randint(2, 6), 0, PALETTES[0]) + [randstr(rng, range(97, 97 + rng.randint(4, 9)), rng.randint(max(0, r - 1), r + 2)) for _ in range(rng.randint(2, 9))]
            s = [list(x) for x in dict.fromkeys(map(tuple, s))]
        c = dict(op='passjoin', strs=s, n=len(s), r=r, sort=rng.random() < .5, mode=rng.choice(MODES), cont=rng.choice(CONTS))
        c.update(rand_bounds(rng, c['n']))
        yield c


def gen_quickjoin(rng, k):
    # more items than the default block size
    for t in range(k):
        p = rand_pts(rng, 560, 90)
        yield dict(op='quickjoin', seed=a_seed(rng), mode=MODES[t % 2], pts=p, n=len(p), r=1, mn=2, mx=-1, vp_tree=t % 4 == 3)
    for t in range(2500 * k):
        c = dict(op='quickjoin', seed=a_seed(rng), cont=rng.choice(CONTS), block_size=rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10]),
                 vp_tree=rng.random() < .4, mode=rng.choice(MODES), beta=rng.choice([1.0, 1.0, 1.0, .5, .75]))
        c.update(rand_space(rng, size(rng, [0, 1, 2, 3, 5, 9, 14, 22], [40, 80, 150])))
        if 'strs' in c and c['n'] > 22 and c['r'] > 1:
            # everything is close to everything: tiny blocks take exponential time
            c.update(beta=1.0, block_size=max(c['block_size'], 6), r=2)
        c.update(rand_bounds(rng, c['n']))
        if rng.random() < .3:
            c['assim'] = 1
        if c['n'] and rng.random() < .25:
            c['dups'] = [rng.randrange(100) for _ in range(rng.randint(1, 12))]
        if t % 24 == 0:
            c.update(procs=rng.choice([2, 3]), perm=rng.randrange(10 ** 6))
        if rng.random() < .1:
            del c['block_size']
        yield c


def gen_laesa(rng, k):
    for t in range(3500 * k):
        c = dict(op='laesa', seed=a_seed(rng), cont=rng.choice(CONTS), mode=rng.choice(MODES))
        c.update(rand_space(rng, size(rng, [0, 1, 2, 3, 5, 9, 14, 22], [40, 80, 150])))
        c.update(rand_bounds(rng, c['n']))
        if rng.random() < .6:
            c['pivots'] = rng.randint(0, c['n'] + 2)
        yield c


def tight_join(rng, metric):
    """Two families of records: pairs exactly at, or just below, the threshold, whose shared tokens come last or first in the order."""
    den = rng.choice([6, 7, 9, 10, 20, 25, 30, 100, 100, 1000, 1000, 1000])
    num = rng.randint(max(1, den // 6), den)
    if den == 1000:
        num = rng.choice([334, 167, 667, 715, 572, 834, 778, 889, 910, 601, 501, 751, 429])
    top = 26 if den == 1000 else 44
    toks = []
    at = 1
    for _ in range(rng.randint(1, 3)):
        for _ in range(40):
            l1, l2 = rng.randint(1, top), rng.randint(1, top)
            l1, l2 = max(l1, l2), min(l1, l2)
            need = num * (l1 + l2) / (num + den) if metric == 'jaccard' else num * (l1 + l2) / (2 * den) if metric == 'dice' else num / den * (l1 * l2) ** .5
            if abs(need - round(need)) < 1e-9 or (den == 1000 and need - int(need) < .2):
                break
        o = int(need + 1e-9) if rng.random() < .8 else int(need)
        o = min(max(o - (rng.random() < .1), 0), l2)
        shared = list(range(o))
        only1, only2 = list(range(o, l1)), list(range(l1, l1 + l2 - o))
        how = rng.randrange(4)
        order = only1 + only2 + shared if how < 2 else shared + only1 + only2 if how == 2 else rng.sample(range(l1 + l2 - o), l1 + l2 - o)
        rank = {x: at + r for r, x in enumerate(order)}
        for part in (shared + only1, shared + only2):
            r = [rank[x] for x in part]
            rng.shuffle(r)
            toks.append(r)
        at += l1 + l2
    rng.shuffle(toks)
    for x in range(len(toks)):
        for y in range(x):
            a, b = set(toks[x]), set(toks[y])
            i = len(a & b)
            s = i / (len(a) * len(b)) ** .5
            if metric == 'binary_cosine' and abs(s - num / den) < 5e-6 and i * i * den * den != num * num * len(a) * len(b):
                # closer than the tolerance of the implementation
                return None
    return dict(op='ppjoin', fn=rng.choice(['ppjoin', 'all_pairs', 'ppjoin_plus']), n=len(toks), toks=toks, metric=metric, num=num, den=den,
                cont='list', explicit=1, **rng.choice([dict(order='default', names='int'), dict(order='none', names='int'),
                                                       dict(order='none', names='int'), dict(order='crc32', names='twins')]))


def gen_ppjoin(rng, k):
    for t in range(4000 * k):
        n = size(rng, [0, 1, 2, 3, 4, 6, 9], [20, 35])
        if t % 250 == 0:
            n = rng.choice([90, 130])
        num, den = rng.choice(FRACS)
        c = dict(op='ppjoin', fn=rng.choice(['ppjoin', 'all_pairs', 'ppjoin_plus']), n=n,
                 toks=rand_toks(rng, n, rng.choice([2, 4, 7, 12, 18, 40, 70])), metric=rng.choice(['jaccard', 'dice', 'binary_cosine']),
                 num=num, den=den, order=rng.choice(['default', 'freq', 'crc32', 'none']), cont=rng.choice(CONTS),
                 explicit=rng.randint(0, 1))
        if rng.random() < .6:
            c['tokenizer'] = rng.choice(['list', 'gen', 'tuple'])
        if c['fn'] == 'ppjoin' and rng.random() < .3:
            c['flag'] = rng.choice(['all_pairs', 'plus'])
        if rng.random() < .4:
            c['names'] = 'twins' if c['order'] == 'crc32' else rng.choice(['twins', 'int'])
        yield c
    for t in range(1500 * k):
        c = tight_join(rng, ['jaccard', 'dice', 'binary_cosine'][t % 3])
        if c is not None:
            yield c
    for t in range(3 * k):
        # a vocabulary large enough for a weak hash of the tokens to show
        n = 60
        toks = [rng.sample(range(1, 4000), 30) for _ in range(n // 2)]
        toks += [sorted(set(rng.sample(x, 24) + rng.sample(range(1, 4000), 4))) for x in toks]
        num, den = rng.choice([(1, 3), (1, 2), (2, 3)])
        yield dict(op='ppjoin', fn=['ppjoin', 'all_pairs', 'ppjoin_plus'][t % 3], n=n, toks=toks, metric='jaccard', num=num, den=den, order='crc32', cont='list', explicit=0)


def gen_minhash(rng, k):
    for t in range(1200 * k):
        n = size(rng, [0, 1, 2, 4, 7, 10], [25])
        num, den = rng.choice(FRACS)
        h = rng.choice([1, 2, 4, 8, 12, 16, 30] if t % 20 else [256, 256, 300, 512])
        if t % 40 == 0 or t % 11 == 0:
            num, den = rng.choice([(1, 20), (1, 40), (1, 100), (1, 15)])
        c = dict(op='minhash', mode='connected_components', n=n, toks=rand_toks(rng, n, rng.choice([2, 4, 7, 12]), False), metric='jaccard',
                 num=num, den=den, h=h, seed=a_seed(rng), tok=rng.choice(['str', 'tuple', 'list']),
                 cont=rng.choice(CONTS), explicit=rng.randint(0, 1), mn=2, mx=-1)
        if rng.random() < .25:
            c['numpy'] = 1
        if rng.random() < .3:
            c['bands'] = rng.randint(1, h)
        yield c
        d = dict(c, op='minhash_bands', bands=min(h, max(1, rng.choice([1, 2, 3, h // 2, h - 1, h]))))
        yield d
        d = dict(c, op='minhash_auto')
        d.pop('bands', None)
        if h > 256:
            # the table of logarithms ends there
            continue
        if h == 256:
            d.update(n=min(n, 10), toks=c['toks'][:10])
        yield d
        # no key: the items are their own tokens, and must differ from each other
        how = rng.choice(['str', 'tuple'])
        own = {tokens(x, how): x for x in c['toks']}
        for op in ('minhash', 'minhash_auto'):
            e = dict(d, op=op, nokey=1, tok=how, toks=list(own.values()), n=len(own))
            yield e


def gen_nnd(rng, k):
    for t in range(2500 * k):
        c = dict(op='nnd', fn=rng.choice(['nn_descent', 'nn_descent_full']), seed=a_seed(rng), cont=rng.choice(CONTS),
                 mode=rng.choice(MODES))
        c.update(rand_space(rng, size(rng, [0, 1, 2, 3, 4, 6, 9, 14, 22], [40, 80])))
        c.update(rand_bounds(rng, c['n']))
        z = rng.random()
        if z < .5:
            c['k'] = rng.randint(1, 6)
        elif z < .75 and c['n'] < 25:
            # every neighbour is kept
            c['k'] = max(1, c['n'] - 1 + rng.choice([0, 0, 1, 4]))
            c['r'] = rng.choice([c['r'], rng.randint(2, 12)])
        if rng.random() < .3:
            c['assim'] = 1
        if c['fn'] == 'nn_descent_full' and rng.random() < .5:
            c['rho'] = rng.choice([.25, .5, 1.0])
            c['delta'] = rng.choice([.001, .01, .2])
        yield c


GEN = {
    'C02': gen_pairwise('connected_components'), 'C03': gen_pairwise('fuzzy_clusters'), 'C04': gen_pairwise('leader'),
    'C05': gen_blocking, 'C06': gen_keycol, 'C07': gen_snm('snm'), 'C08': gen_snm('asnm'), 'C09': gen_passjoin,
    'C10': gen_ppjoin, 'C11': gen_quickjoin, 'C12': gen_vptree, 'C13': gen_iidx, 'C14': gen_minhash, 'C15': gen_nnd, 'C34': gen_laesa,
}
