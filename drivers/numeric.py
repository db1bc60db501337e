"""Replays into fog.metrics, fog.lsh, fog.evaluation and fog.utils."""
import collections
import types
import random, copy
from collections import Counter
from vf.util import *


# ---------------------------------------------------------------- set metrics
# a token may be any value, a false one included
ODD = [None, 0, '', (), frozenset(), 'a', 'b', ('a', 1), 2.5, -1]


def token(t, kind):
    if kind == 'int':
        return t - 1
    if kind == 'odd':
        return ODD[t - 1] if t <= len(ODD) else t
    if kind == 'word':
        return 'mot%d' % t
    return chr(96 + t) if t <= 26 else chr(0x4e00 + t)


def as_set_like(ts, how, kind='char'):
    if how == 'str':
        return ''.join(token(t, 'char') for t in ts)
    toks = [token(t, kind) for t in ts]
    if how == 'list':
        return toks
    if how == 'tuple':
        return tuple(toks)
    if how == 'gen':
        return (t for t in toks)
    if how == 'set':
        return set(toks)
    if how == 'frozenset':
        return frozenset(toks)
    if how == 'dict':
        return {t: n for n, t in enumerate(toks)}
    return Counter(toks)


def snap(x):
    return copy.deepcopy(x) if isinstance(x, (list, tuple, set, frozenset, dict)) else None


def op_setm(c):
    import fog.metrics as m
    from fog.metrics.utils import intersection_size
    name = c['metric']
    f = dict(jaccard=m.jaccard_similarity, overlap=m.overlap_coefficient, dice=m.dice_coefficient,
             binary_cosine=m.binary_cosine_similarity, sparse_binary_cosine=m.sparse_binary_cosine_similarity,
             intersection_size=intersection_size)[name]
    ha, hb = c['ha'], c['hb']
    if name == 'sparse_binary_cosine':
        ha, hb = ('set' if ha not in ('frozenset', 'dict') else ha), ('set' if hb not in ('frozenset', 'dict') else hb)
    kind = c.get('tk', 'char') if 'str' not in (ha, hb) else 'char'
    A, B = as_set_like(c['a'], ha, kind), as_set_like(c['b'], hb, kind)
    if c.get('same'):
        B = A
    sA, sB = snap(A), snap(B)
    v = f(A, B)
    mut = (sA is not None and sA != A) or (sB is not None and sB != B)
    if ha == 'gen':
        A = as_set_like(c['a'], ha, kind)
    if hb == 'gen':
        B = as_set_like(c['b'], hb, kind)
    if c.get('same'):
        B = A
    w = f(B, A)
    sq = 'cosine' in name
    return dict(v=rat(v * v if sq else v, 200000), w=rat(w * w if sq else w, 200000), neg=v < 0 or w < 0, one=v == 1, mutated=mut,
                above=name != 'intersection_size' and (v > 1 + 1e-9 or w > 1 + 1e-9))


def op_wm(c):
    import fog.metrics as m
    name = c['metric']
    scale = c.get('scale', 1)
    up = c.get('up', 1)

    def mk(ps):
        d = {(t - 1 if c.get('tk') == 'int' else 't%d' % t): (w if scale == 1 else w / scale) * up for t, w in ps}
        return Counter(d) if c.get('counter') else d
    if 'sa' in c:
        A, B = as_set_like(c['sa'], c['ha']), as_set_like(c['sb'], c['hb'])
        f = m.cosine_similarity
    else:
        A, B = mk(c['a']), mk(c['b'])
        f = dict(cosine=m.sparse_cosine_similarity if not c.get('dense') else m.cosine_similarity,
                 weighted_jaccard=m.weighted_jaccard_similarity, dot=m.sparse_dot_product,
                 norm=m.sparse_norm, normalize=m.sparse_normalize)[name]
    sA, sB = snap(A), snap(B)
    if name == 'norm':
        r = f(A)
        res = dict(v=rat(r * r * scale * scale / up / up))
    elif name == 'normalize':
        r = f(A)
        res = dict(v=[[k + 1 if c.get('tk') == 'int' else int(k[1:]), (x > 0) - (x < 0), rat(x * x)] for k, x in r.items()])
    else:
        if c.get('same'):
            B = A
        v = f(A, B)
        mut = (sA is not None and sA != A) or (sB is not None and sB != B)
        if 'sa' in c and c['ha'] == 'gen':
            A = as_set_like(c['sa'], c['ha'])
        if 'sb' in c and c['hb'] == 'gen':
            B = as_set_like(c['sb'], c['hb'])
        w = f(B, A)
        if name == 'cosine':
            res = dict(v=rat(v * v, 2000000), w=rat(w * w, 2000000), sgn=(v > 0) - (v < 0), sgnw=(w > 0) - (w < 0),
                       above=abs(v) > 1 + 1e-9)
        elif name == 'dot':
            res = dict(v=rat(v * scale * scale / up / up), w=rat(w * scale * scale / up / up))
        else:
            res = dict(v=rat(v), w=rat(w), above=v > 1 + 1e-9)
        res['mutated'] = mut
        return res
    res['mutated'] = sA != A
    return res


# ---------------------------------------------------------------- evaluation
def op_bm(c):
    from fog.evaluation import best_matching_macro_average

    def mk(cls, how):
        kind = c.get('it', 'str')
        cs = [['i%d' % x if kind == 'str' else token(x, kind) for x in cl] for cl in cls]
        if how == 'tuple':
            cs = tuple(tuple(x) for x in cs)
        elif how == 'set':
            cs = [set(x) for x in cs]
        return cs
    kw = dict(allow_additional_items=True) if c['allow'] else {}
    try:
        p, r, f = best_matching_macro_average(mk(c['t'], c['how']), mk(c['p'], c['how'] if c['how'] != 'set' else 'list'), **kw)
    except TypeError:
        return dict(refused=True)
    if len(c['t']) > 4 or sum(map(len, c['t'])) > 60:
        return dict(refused=False, ppm=[int(round(x * 10 ** 6)) for x in (p, r, f)])
    return dict(refused=False, prec=rat(p, 200000), rec=rat(r, 200000), f1=rat(f, 200000))


def op_l2c(c):
    from fog.evaluation import labels_to_clusters
    how = c['how']
    name = dict(int=lambda l: l, str=lambda l: chr(97 + l) if l >= 0 else 'Z', none=lambda l: None if l == 0 else l, bool=lambda l: (l, l == 1), falsy=lambda l: {-1: '', 0: False, 1: ()}.get(l, 'k%d' % l))[c.get('lab', 'int')]
    c = dict(c, ls=[[x, name(l)] for x, l in c['ls']])
    if how == 'str':
        src = ''.join(l for _, l in c['ls'])
    elif how == 'list':
        src = [l for _, l in c['ls']]
    elif how == 'tuple':
        src = tuple(l for _, l in c['ls'])
    elif how == 'dict':
        src = {x: l for x, l in c['ls']}
    elif how == 'mapping':
        src = [collections.UserDict, types.MappingProxyType, collections.OrderedDict][len(c['ls']) % 3]({x: l for x, l in c['ls']})
    elif how == 'seq':
        src = [collections.UserList, collections.deque][len(c['ls']) % 2]([l for _, l in c['ls']])
    elif how == 'items':
        src = {x: l for x, l in c['ls']}.items()
    else:
        src = ((x, l) for x, l in c['ls'])
    return dict(cl=[[integer(x) for x in cl] for cl in labels_to_clusters(src)])


def op_c2l(c):
    from fog.evaluation import clusters_to_labels
    how = c['how']
    if how == 'key':
        r = clusters_to_labels([[('item', x) for x in cl] for cl in c['cl']], key=lambda it: it[1])
    elif how == 'gen':
        r = clusters_to_labels(((x for x in cl) for cl in c['cl']))
    else:
        r = clusters_to_labels(c['cl'])
    return dict(ls=[[integer(k), integer(v)] for k, v in r.items()])


def op_c2lf(c):
    from fog.evaluation import clusters_to_labels
    if c['how'] == 'key':
        r = clusters_to_labels([[('item', x) for x in cl] for cl in c['cl']], key=lambda it: it[1], flat=True)
    else:
        r = clusters_to_labels(c['cl'], flat=True)
    return dict(ls=[integer(x) for x in r])


def op_lround(c):
    from fog.evaluation import clusters_to_labels, labels_to_clusters
    return dict(back=[list(x) for x in labels_to_clusters(clusters_to_labels(c['cl']))])


# ---------------------------------------------------------------- online mean, squeeze
def op_mean(c):
    from fog.utils import OnlineMean
    from statistics import StatisticsError
    R = [None, OnlineMean(), OnlineMean(), OnlineMean()]
    seen = []
    for o in c['ops']:
        refused = 0
        u = c.get('unit', 1)
        if o[0] == 'add':
            R[o[1]].add(o[2] if u == 1 else o[2] / u)
        elif o[0] == 'sub':
            try:
                R[o[1]].subtract(o[2] if u == 1 else o[2] / u)
            except Exception:
                refused = 1
        elif o[0] == 'iadd':
            x = R[o[1]]
            x += R[o[2]]
            if x is not R[o[1]]:
                refused = 2
            R[o[1]] = x
        else:
            R[3] = R[o[1]] + R[o[2]]
        views = []
        for x in R[1:]:
            try:
                m = rat(x.peek() * u)
                if rat(float(x) * u) != m or not isinstance(float(x), float):
                    m = [-1, -1]
            except StatisticsError:
                m = [0, 0]
            views.append([len(x), m])
        seen.append(dict(refused=refused, views=views))
    return dict(seen=seen)


def op_sq(c):
    from fog.utils import squeeze
    s = S(c['s'])
    return dict(r=cps(squeeze(s, keep_roman_numerals=True) if c['roman'] else squeeze(s)))


# ---------------------------------------------------------------- lsh
def toksrc(ts, how):
    if how == 'str':
        return ''.join(chr(t + 0x3040 if t > 20 else 96 + t) for t in ts)
    if how == 'far':
        # ids congruent modulo 20 share their low bits: 'a', U+10061, U+20061, U+30061, ...
        return ''.join(chr(97 + t % 20 + [0, 0x100, 0x10000, 0x20000, 0x1000, 0x10100][t // 20 % 6]) for t in ts)
    # some of them are long, and differ at their end only
    toks = ['' if t == 5 else 'tok\u00e9%d' % t if t % 7 else 'tok\u00e9' * 40 + '%d' % t for t in ts]
    if how == 'gen':
        return (t for t in toks)
    if how == 'set':
        return set(toks)
    return toks if how == 'list' else tuple(toks)


def hasher(c, h=None):
    from fog.lsh import MinHash, LSBMinHash, SuperMinHash
    h = h or c['h']
    if c['kind'] == 'min':
        return MinHash(h, seed=c['seed'])
    if c['kind'] == 'numpy':
        return MinHash(h, seed=c['seed'], use_numpy=True)
    if c['kind'] == 'super':
        return SuperMinHash(h)
    return LSBMinHash(precision=h // 64, seed=c['seed'])


def encsig(c, s):
    if c['kind'] == 'lsb':
        return [(int(x) >> k) & 1 for x in s for k in range(64)] + [7 for x in s if not 0 <= int(x) < 1 << 64]
    if c['kind'] == 'super':
        return [integer(x) for x in s]
    return [hilo(x) for x in s]


def similarity(c, x, y):
    from fog.lsh import minhash_similarity, lsb_minhash_similarity
    return (lsb_minhash_similarity if c['kind'] == 'lsb' else minhash_similarity)(x, y)


def op_sig(c):
    m = hasher(c)
    for t in range(c.get('busy', 0)):
        m.create_signature(toksrc(range(t, t + 40), 'list'))
    how = c['tok']
    sa = m.create_signature(toksrc(c['a'], how))
    sb = m.create_signature(toksrc(c['b'], how))
    su = m.create_signature(toksrc(c['b'] + c['a'], how))
    rng = random.Random(c['seed'])
    again = list(c['a']) + [rng.choice(c['a']) for _ in range(3 if c['a'] else 0)]
    rng.shuffle(again)
    sa2 = hasher(c).create_signature(toksrc(again, how))
    return dict(sa=encsig(c, sa), sb=encsig(c, sb), su=encsig(c, su), sa2=encsig(c, sa2),
                sim=rat(float(similarity(c, sa, sb))), self=rat(float(similarity(c, sa, m.create_signature(toksrc(c['a'], how))))))


def op_sigsim(c):
    """Similarity of two signatures given row by row."""
    x, y = c['sa'], c['sb']
    if c['kind'] == 'lsb':
        x, y = [[sum(b << k for k, b in enumerate(s[w:w + 64])) for w in range(0, len(s), 64)] for s in (x, y)]
    return dict(sim=rat(float(similarity(c, x, y))))


def op_est(c):
    m = hasher(c)
    for t in range(c.get('busy', 0)):
        # an instance that served before
        m.create_signature(toksrc(range(t, t + 40), 'list'))
    return dict(est=int(round(1000 * float(similarity(c, m.create_signature(toksrc(c['a'], c['tok'])),
                                                       m.create_signature(toksrc(c['b'], c['tok'])))))))


def op_xproc(c):
    if c['kind'] == 'simhash':
        from fog.lsh import simhash
        x = simhash(toksrc(c['a'], 'list'), f=64)
        return dict(sig=[hilo(x >> 32), hilo(x & 0xffffffff)])
    return dict(sig=encsig(c, hasher(c).create_signature(toksrc(c['a'], c['tok']))))


def bitsof(x, f):
    return [(x >> k) & 1 for k in range(f)]


def op_simhash(c):
    from fog.lsh import simhash
    f = c['f']
    kw = dict(f=f) if f != 128 or c.get('explicit') else {}
    toks = sorted(set(c['a']))
    bits = [bitsof(simhash(toksrc([t], 'list'), **kw), f) for t in toks]
    sig = simhash(toksrc(c['a'], c['tok'] if c['tok'] != 'str' else 'list'), **kw)
    sh = list(c['a'])
    random.Random(len(sh)).shuffle(sh)
    sig2 = simhash(toksrc(sh, 'list'), **kw)
    return dict(bits=bits, mult=[c['a'].count(t) for t in toks], sig=bitsof(sig, f), sig2=bitsof(sig2, f),
                over=1 if sig >> f else 0)


def op_shspread(c):
    from fog.lsh import simhash
    return dict(bits=[bitsof(simhash(['%s%d' % (c['word'], k)], f=c['f']), c['f']) for k in range(64)])


def op_simsim(c):
    from fog.lsh import simhash_distance, simhash_similarity
    x = sum(b << k for k, b in enumerate(c['x']))
    y = sum(b << k for k, b in enumerate(c['y']))
    kw = dict(f=c['f']) if c['f'] != 128 else {}
    return dict(dist=rat(simhash_distance(x, y, **kw)), sim=rat(simhash_similarity(x, y, **kw)))


OPS = dict(setm=op_setm, wm=op_wm, bm=op_bm, l2c=op_l2c, c2l=op_c2l, c2lf=op_c2lf, lround=op_lround, mean=op_mean,
           sq=op_sq, sig=op_sig, sigsim=op_sigsim, est=op_est, xproc=op_xproc, simhash=op_simhash, simsim=op_simsim, shspread=op_shspread)


def post(prop, events):
    first = {}
    for e in events:
        if e['op'] == 'xproc' and not e['err']:
            e['first'] = first.setdefault(e['grp'], e['sig'])
    return events


# ---------------------------------------------------------------- cases
HOWS = ['str', 'list', 'tuple', 'gen', 'set', 'frozenset', 'dict', 'counter']
SETM = ['jaccard', 'overlap', 'dice', 'binary_cosine', 'sparse_binary_cosine', 'intersection_size']
KINDS = ['min', 'numpy', 'super', 'lsb']


# ---------------------------------------------------------------- candidate pairs
def op_cand(c):
    import random as R
    from fog.clustering import fagin
    vs = [Counter({token(d, c['tk']): w for d, w in v}) if k % 2 else {token(d, c['tk']): w for d, w in v} for k, v in enumerate(c['vs'])]
    before = copy.deepcopy(vs)
    R.seed(c['seed'])
    f = dict(lists=fagin.naive_cosine_pairs, leaders=fagin.sqrt_indexation_pairs, fa=fagin.fagin_k1, ta=fagin.threshold_algorithm_k1)[c['how']]
    out = [[i + 1, [j + 1 for j in js] if type(js) is list else js + 1] for i, js in f(vs)]
    return dict(r=out, mutated=vs != before)


OPS['cand'] = op_cand


def expand(prop, tcases):
    seen = set()
    for n, t in enumerate(tcases):
        k = repr(sorted(t.items()))
        if k in seen:
            continue
        seen.add(k)
        if prop == 'C17':
            a, b = [p[0] for p in t['a']], [p[0] for p in t['b']]
            if not a and not b:
                continue
            # a weight of two is a token given twice
            a, b = [p[0] for p in t['a'] for _ in range(max(1, p[1]))], [p[0] for p in t['b'] for _ in range(max(1, p[1]))]
            yield dict(op='setm', metric=SETM[n % 6], a=a, b=b, ha=HOWS[n % 8], hb=HOWS[(n // 8) % 8], tk=['char', 'int', 'odd', 'word'][n // 3 % 4])
        elif prop == 'C20':
            ls = t['seq']
            yield dict(op='l2c', ls=ls, how=['dict', 'pairs'][n % 2])
            yield dict(op='l2c', ls=[[x, l] for x, (_, l) in enumerate(ls)], how=['list', 'tuple'][n % 2])
            groups = {}
            for x, l in ls:
                groups.setdefault(l, []).append(x - 1)
            cl = list(groups.values())
            yield dict(op='c2l', cl=cl, how=['key', 'gen', 'list'][n % 3])
            yield dict(op='lround', cl=cl)
            if sorted(x for c in cl for x in c) == list(range(len(ls))):
                yield dict(op='c2lf', cl=cl, how=['key', 'list'][n % 2])
        elif prop == 'C18':
            mname = ['cosine', 'weighted_jaccard', 'dot', 'cosine', 'weighted_jaccard', 'norm', 'normalize'][n % 7]
            yield dict(op='wm', metric=mname, a=t['a'], b=t['b'], counter=n % 2, dense=(n // 7) % 2)
            if mname != 'weighted_jaccard':
                yield dict(op='wm', metric=mname, a=[[k, -w if (k + n) % 2 else w] for k, w in t['a']], b=[[k, -w if (k * n) % 3 == 1 else w] for k, w in t['b']],
                           counter=n % 2, dense=(n // 7) % 2)
        elif prop == 'C19':
            yield dict(op='bm', t=t['t'], p=t['p'], allow=not (set(sum(t['p'], [])) <= set(sum(t['t'], []))),
                       how=['list', 'tuple', 'set'][n % 3], it=['str', 'int', 'odd'][n // 3 % 3])
        elif prop == 'C33':
            yield dict(op='mean', ops=t['ops'])
        elif prop == 'C38':
            for how in (['lists', 'fa', 'ta'] if t['mode'] == 'lists' else ['leaders']):
                yield dict(op='cand', how=how, vs=t['vs'], tk=['char', 'int', 'odd', 'word'][n % 4], seed=n)
        elif prop == 'C16':
            yield dict(op='sig', kind=KINDS[n % 4], a=t['a'], b=t['b'], h=64 if n % 4 == 3 else 8, seed=n, tok=['str', 'list', 'tuple', 'gen', 'set'][n % 5])


def rand_bag(rng, U, L):
    return [rng.randint(1, U) for _ in range(rng.randint(0, L))]


def related(rng, a, U):
    b = list(a)
    for _ in range(rng.randint(0, 4)):
        if b and rng.random() < .5:
            b.pop(rng.randrange(len(b)))
        else:
            b.insert(rng.randint(0, len(b)), rng.randint(1, U))
    return b


def gen_C17(rng, k):
    for n in range(4000 * k):
        U = rng.choice([3, 6, 12, 26, 60])
        L = [3, 8, 20, 60]
        if n % 25 < 2:
            U, L = rng.choice([200, 400]), [5, 60, 250]
        a = rand_bag(rng, U, rng.choice(L))
        b = related(rng, a, U) if rng.random() < .6 else rand_bag(rng, U, rng.choice(L))
        if L[-1] > 60 and rng.random() < .4:
            # one inside the other
            b = rng.sample(a, rng.randint(0, len(a)))
        if rng.random() < .5:
            a, b = b, a
        if not a and not b:
            continue
        c = dict(op='setm', metric=SETM[n % 6], a=a, b=b, ha=rng.choice(HOWS), hb=rng.choice(HOWS), tk=rng.choice(['char', 'int', 'odd', 'word']))
        if rng.random() < .05 and a and c['ha'] != 'gen':
            c.update(same=1, b=a, hb=c['ha'])
        yield c


def gen_C18(rng, k):
    for n in range(4000 * k):
        U = rng.choice([2, 4, 8]) if n % 25 else 20
        mname = ['cosine', 'weighted_jaccard', 'dot', 'norm', 'normalize'][n % 5]
        lo = -3 if mname in ('cosine', 'dot', 'norm', 'normalize') and rng.random() < .3 else 0

        def ws():
            ts = rng.sample(range(1, U + 1), rng.randint(0, U))
            return [[t, rng.randint(max(lo, -2) if U > 8 else lo, rng.choice([1, 2, 4] if U <= 8 else [1, 2]))] for t in ts]
        if n % 1000 < 5:
            U = 1300
            a, b = [[[t, 1] for t in rng.sample(range(1, U + 1), rng.randint(U - 90, U))] for _ in 'ab']
        elif U == 2 and n % 3 == 0:
            lo = 0
            a, b = [[[t, rng.choice([0, 1, 7, 12, 20])] for t in rng.sample([1, 2, 3], rng.randint(1, 3))] for _ in 'ab']
        else:
            a, b = ws(), ws()
        if rng.random() < .3:
            b = [list(p) for p in a]
            rng.shuffle(b)
        c = dict(op='wm', metric=mname, a=a, b=b, counter=rng.randint(0, 1), dense=rng.randint(0, 1), tk=rng.choice(['str', 'int']),
                 scale=rng.choice([1, 1, 4, 1024]), up=rng.choice([1, 1, 256, 65536]))
        if rng.random() < .05 and any(w for _, w in a):
            c.update(same=1, b=a)
        yield c
    for n in range(1500 * k):
        U = rng.choice([2, 4, 9])
        a = rand_bag(rng, U, 8)
        b = related(rng, a, U) if rng.random() < .6 else rand_bag(rng, U, 8)
        if not a and not b:
            continue
        yield dict(op='wm', metric='cosine', sa=a, sb=b, a=[], b=[], ha=rng.choice(['str', 'list', 'tuple', 'gen']),
                   hb=rng.choice(['str', 'list', 'tuple', 'gen']))


def rand_part(rng, items, m):
    p = [[] for _ in range(m)]
    for x in items:
        p[rng.randrange(m)].append(x)
    return [x for x in p if x]


def gen_C19(rng, k):
    for n in range(3000 * k):
        N = rng.randint(1, 9) if n % 12 else rng.randint(10, 40)
        items = list(range(1, N + 1))
        t = rand_part(rng, items, rng.randint(1, 4) if N < 10 else rng.choice([1, 2, 6, 12]))
        rng.shuffle(items)
        p = rand_part(rng, items, rng.randint(1, 5) if N < 10 else rng.choice([1, 2, 3, 8, 12]))
        if n % 300 == 5:
            # many clusters
            N = rng.choice([120, 260, 480])
            items = list(range(1, N + 1))
            t = rand_part(rng, items, N // rng.choice([2, 3, 6]))
            p = rand_part(rng, rng.sample(items, N), N // rng.choice([2, 3, 6]))
        elif n % 300 == 9:
            # large clusters
            N = rng.choice([90, 200, 400])
            items = list(range(1, N + 1))
            t = rand_part(rng, items, rng.randint(1, 9))
            p = rand_part(rng, rng.sample(items, N) if rng.random() < .5 else items, rng.randint(1, 9))
        r = rng.random()
        if r < .15:
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .5:
                    p.append([N + rng.randint(1, 3)])
                else:
                    rng.choice(p).append(N + rng.randint(1, 3))
        elif r < .2:
            t.append([])
        elif r < .25:
            p.append([])
        elif r < .3:
            rng.choice(p).append(rng.choice(items))
        elif r < .35:
            c = rng.choice(p)
            c.pop()
        elif r < .38:
            t = []
        elif r < .41:
            p = []
        elif r < .5:        # overlapping truth clusters
            x = rng.choice(items)
            c = rng.choice(t)
            if x not in c:
                c.append(x)
        rng.shuffle(p)
        yield dict(op='bm', t=t, p=p, allow=rng.random() < .4, how=rng.choice(['list', 'tuple', 'set']), it=rng.choice(['str', 'int', 'odd']))


def gen_C20(rng, k):
    for n in range(2500 * k):
        N = rng.choice([0, 1, 2, 4, 8, 15]) if n % 40 else rng.choice([40, 90, 90, 300])
        m = rng.randint(1, 5) if N < 20 else rng.choice([0, 1, 2, 12, 30, 70, N - 1])
        if n % 400 == 7:
            N, m = 620, 500
        labs = [rng.randint(-1, m) for _ in range(N)]
        m = max(m, 1)
        how = rng.choice(['list', 'tuple', 'dict', 'pairs', 'mapping', 'seq', 'items'])
        if how in ('list', 'tuple', 'seq'):
            ls = [[x, l] for x, l in enumerate(labs)]
        else:
            ids = rng.sample(range(1000), N)
            ls = [[x, l] for x, l in zip(ids, labs)]
        lab = rng.choice(['int', 'str', 'none', 'bool', 'falsy'])
        yield dict(op='l2c', ls=ls, how='str' if lab == 'str' and how == 'list' and rng.random() < .3 else how, lab=lab)
        items = rng.sample(range(1000), N)
        cl = rand_part(rng, items, m) if N else []
        if cl and rng.random() < .2:
            cl.insert(rng.randrange(len(cl)), [])
        yield dict(op='c2l', cl=[list(x) for x in cl], how=rng.choice(['list', 'key', 'gen']))
        if cl and rng.random() < .3:
            d = [list(x) for x in cl]
            d.append([rng.choice(items)])
            yield dict(op='c2l', cl=d, how='list')
        flat = list(range(N))
        rng.shuffle(flat)
        yield dict(op='c2lf', cl=rand_part(rng, flat, m) if N else [], how=rng.choice(['list', 'key']))
        yield dict(op='lround', cl=rand_part(rng, items, m) if N else [])


def gen_C33(rng, k):
    for n in range(1000 * k):
        ops = []
        for _ in range(rng.randint(1, 25) if n % 50 else 150):
            r = rng.random()
            if r < .5:
                ops.append(['add', rng.randint(1, 2), rng.randint(-9, 9)])
            elif r < .75:
                ops.append(['sub', rng.randint(1, 2), rng.randint(-9, 9)])
            elif r < .85 and len([o for o in ops if o[0] == 'iadd']) < 6:
                ops.append(['iadd', rng.randint(1, 2), rng.randint(1, 2)])
            else:
                ops.append(['plus', rng.randint(1, 2), rng.randint(1, 2)])
        yield dict(op='mean', ops=ops, unit=rng.choice([1, 1, 4, 256]))
    ROM = [73, 88, 67, 77, 105, 120, 99, 109, 118, 86, 108, 76]
    for n in range(1500 * k):
        al = rng.choice([[97, 98], [97, 10, 32], ROM, [73, 73, 97, 65], [0x1F600, 0xe9, 97], [0xd800, 97, 0xdfff], [10, 13, 0x2028]])
        s = []
        for _ in range(rng.randint(0, 9)):
            s += [rng.choice(al)] * rng.choice([1, 1, 2, 3])
        if n % 60 == 0:
            top = rng.choice([90, 170, 330, 600])
            while len(s) < top:
                s += [rng.choice(al)] * rng.choice([1, 2, 3, 40])
        yield dict(op='sq', s=s, roman=rng.random() < .5)


def gen_C16(rng, k):
    for n in range(1200 * k):
        U = rng.choice([4, 10, 40])
        a = rand_bag(rng, U, rng.choice([1, 4, 12]))
        b = related(rng, a, U) if rng.random() < .6 else rand_bag(rng, U, 12)
        kind = KINDS[n % 4]
        if n % 60 < 4:
            a = rand_bag(rng, 300, 300)
            b = related(rng, a, 300)
        yield dict(op='sig', kind=kind, a=a, b=b, h=rng.choice([256, 512, 768, 1024]) if n % 50 < 4 else rng.choice([64, 128]) if kind == 'lsb' else rng.choice([1, 2, 5, 16, 32]),
                   seed=rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 6), rng.randrange(2 ** 30, 2 ** 31 - 1), -rng.randrange(1, 10 ** 6) if kind != 'numpy' else 1]), tok=rng.choice(['str', 'list', 'tuple', 'gen', 'set']))
    for n in range(120 * k):
        kind = ['lsb', 'min'][n % 2]
        h = rng.choice([64, 128, 256, 512]) if kind == 'lsb' else rng.randint(1, 40)
        a = [rng.randint(0, 1) for _ in range(h)]
        p = rng.choice([0, .02, .5, .98, 1])
        b = [1 - x if rng.random() < p else x for x in a]
        if kind == 'lsb' and n % 6 == 0:
            # every bit of one word differs
            w = 64 * rng.randrange(h // 64)
            b = a[:w] + [1 - x for x in a[w:w + 64]] + a[w + 64:]
        yield dict(op='sigsim', kind=kind, sa=a, sb=b, h=h)
    for n in range(48 * k):
        U = rng.choice([20, 40])
        a = rng.sample(range(1, U + 1), rng.randint(4, U))
        b = rng.sample(range(1, U + 1), rng.randint(4, U)) if rng.random() < .5 else related(rng, a, U)
        kind = KINDS[n % 4]
        yield dict(op='est', kind=kind, a=a, b=b or [1], h=1024, seed=rng.randrange(10 ** 6), tok='list', tol=180 if kind == 'lsb' else 90)
    for n in range(24 * k):
        # characters of every plane, with the same low bits
        a = rng.sample(range(120), rng.randint(3, 20))
        b = [x + 20 for x in a] if rng.random() < .6 else [x + 40 for x in a[:len(a) // 2]] + a[len(a) // 2:]
        kind = KINDS[n % 4]
        yield dict(op='est', kind=kind, a=[x % 120 for x in a], b=[x % 120 for x in b], h=1024, seed=rng.randrange(10 ** 6), tok='far', tol=180 if kind == 'lsb' else 90)
    for n in range(4 * k):
        # a long serving instance answers as a new one
        a = rand_bag(rng, 20, 12)
        yield dict(op='sig', kind=KINDS[n % 4], a=a, b=related(rng, a, 20), h=64, seed=rng.randrange(10 ** 6), tok='list', busy=rng.choice([130, 300, 600]) if n % 4 != 3 else 60)
    for g in range(6):
        a = rand_bag(rng, 30, 12) or [1]
        kind = (KINDS + ['simhash'])[g % 5]
        sd = rng.randrange(1000) if g else 0
        for _ in range(16):
            yield dict(op='xproc', grp=g, kind=kind, a=a, h=64, seed=sd, tok='list')
    for f in [4, 8, 16, 32, 64, 128, 256, 512]:
        yield dict(op='shspread', f=f, word=rng.choice('abcdé'))
    for n in range(400 * k):
        f = rng.choice([4, 8, 16, 32, 64, 128, 128, 256, 512])
        yield dict(op='simhash', a=rand_bag(rng, rng.choice([3, 8]), 9) if n % 40 else rand_bag(rng, *rng.choice([(50, 50), (90, 200), (400, 500)])), f=f if n % 40 else min(f, 64), tok=rng.choice(['list', 'tuple', 'gen']), explicit=rng.randint(0, 1))
        f = rng.choice([1, 8, 32, 64, 128, 128, 256, 512, 33, 63, 65, 127, 129, 300])
        x = [rng.randint(0, 1) for _ in range(f)]
        y = list(x) if rng.random() < .3 else [rng.randint(0, 1) for _ in range(f)]
        if rng.random() < .5:
            for _ in range(rng.randint(0, 5)):
                y[rng.randrange(f)] ^= 1
        yield dict(op='simsim', x=x, y=y, f=f)


GEN = dict(C16=gen_C16, C17=gen_C17, C18=gen_C18, C19=gen_C19, C20=gen_C20, C33=gen_C33)


def gen_C38(rng, k):
    for n in range(1000 * k):
        U = rng.choice([2, 4, 8, 20])
        N = rng.choice([0, 1, 2, 3, 4, 6, 9, 10, 16, 25]) if n % 50 else 60
        if n % 150 == 1:
            N, U = rng.choice([57, 72, 90]), 40
        if n % 250 == 2:
            N, U = rng.choice([120, 180, 300, 430]), rng.choice([90, 300])
        vs = []
        for _ in range(N):
            dims = rng.sample(range(1, U + 1), rng.randint(0 if rng.random() < .2 else 1, min(U, 5)))
            vs.append([[d, rng.choice([1, 1, 2, 3])] for d in dims])
        if N and rng.random() < .3:
            vs[-1] = vs[0]
        yield dict(op='cand', how=['lists', 'leaders', 'lists', 'leaders', 'fa', 'ta'][n % 6 if N < 50 else n // 50 % 6], vs=vs, tk=rng.choice(['char', 'int', 'odd', 'word']), seed=rng.randrange(1000))


GEN['C38'] = gen_C38


def gen(prop, rng, tier):
    return GEN[prop](rng, 2 if tier == 'quick' else 12)
