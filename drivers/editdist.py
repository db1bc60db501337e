from vf.util import *


def _f():
    from cfog.metrics import levenshtein as m
    import fog.metrics  # noqa: public package must import
    return m


def _pair(c):
    pre, post = S(c.get('pre', [])) * c.get('pren', 1), S(c.get('post', [])) * c.get('postn', 1)
    return pre + S(c['a']) + post, pre + S(c['b']) + post


def op_lev(c):
    a, b = _pair(c)
    return dict(r=integer(_f().levenshtein_distance(a, b)))


def op_lim(c):
    a, b = _pair(c)
    return dict(r=integer(_f().limited_levenshtein_distance(c['k'], a, b)))


def op_lte1(c):
    a, b = _pair(c)
    return dict(r=boolean(_f().levenshtein_distance_lte1(a, b)))


def op_dam1(c):
    a, b = _pair(c)
    return dict(r=boolean(_f().damerau_levenshtein_distance_lte1(a, b)))


def op_mem(c):
    """Resident memory growth over many calls on a pair of long strings."""
    m = _f()
    a, b = S(c['a']) * c['n'], S(c['b']) * c['n']
    f = dict(lev=lambda: m.levenshtein_distance(a, b),
             lim=lambda: m.limited_levenshtein_distance(c['k'], a, b),
             lte1=lambda: m.levenshtein_distance_lte1(a, b),
             dam1=lambda: m.damerau_levenshtein_distance_lte1(a, b))[c['fn']]

    def rss():
        with open('/proc/self/statm') as fh:
            return int(fh.read().split()[1]) * 4
    for _ in range(20):
        f()
    r0 = rss()
    for _ in range(c['calls']):
        f()
    return dict(growth_kb=max(0, rss() - r0))


def judged(f):
    return lambda c: dict(f(c), near=c.get('near', 0))


OPS = dict(lev=judged(op_lev), lim=judged(op_lim), lte1=judged(op_lte1), dam1=judged(op_dam1), mem=judged(op_mem))


def every(a, b, ks, **kw):
    yield dict(op='lev', a=a, b=b, **kw)
    for k in ks:
        yield dict(op='lim', k=k, a=a, b=b, **kw)
    yield dict(op='lte1', a=a, b=b, **kw)
    yield dict(op='dam1', a=a, b=b, **kw)


def expand(prop, tcases):
    for n, t in enumerate(tcases):
        pal = PALETTES[0] if n % 3 else PALETTES[1 + (n // 3) % (len(PALETTES) - 1)]
        a, b = paint(t['a'], pal), paint(t['b'], pal)
        if t['k'] == 0:
            yield from every(a, b, [0])
            if n % 5 == 0:
                # the same pair far inside a longer text
                yield from every(a, b, [1, 2], pre=pal[:1 + n % 3], pren=1 + n // 5 % 23, post=pal[:1 + n % 2], postn=n // 5 % 7)
        else:
            yield dict(op='lim', k=t['k'], a=a, b=b)


def gen(prop, rng, tier):
    N = 2000 if tier == 'quick' else 12000
    for n in range(N):
        pal = rng.choice(PALETTES)[:rng.randint(1, 5)]
        L = rng.choice([3, 6, 9, 14, 22])
        a = randstr(rng, pal, rng.randint(0, L))
        b = mutate(rng, a, pal, rng.randint(0, 5)) if rng.random() < .75 else randstr(rng, pal, rng.randint(0, L))
        kw = {}
        if rng.random() < .3:
            kw = dict(pre=randstr(rng, pal, rng.choice([0, 1, 2, 3, 9, 20, 40])), post=randstr(rng, pal, rng.choice([0, 1, 2, 3, 20])))
        elif rng.random() < .02:
            kw = dict(pre=[rng.choice(pal)], pren=rng.choice([255, 256, 65535, 65536, 70000]),
                      post=[rng.choice(pal)], postn=rng.choice([1, 256, 65536]))
        ks = rng.sample([0, 1, 2, 3, 4, 5, 7, 12, 30, 1000, 2000000000], 3)
        yield from every(a, b, ks, **kw)
    # one-character cores inside long contexts
    for n in range(N // 6):
        pal = rng.choice(PALETTES)
        pre, post = randstr(rng, pal[:2], rng.randint(0, 4)), randstr(rng, pal[:2], rng.randint(0, 4))
        a = randstr(rng, pal[:3], rng.randint(0, 1))
        b = randstr(rng, pal[:3], rng.randint(0, 4))
        yield from every(a, b, [0, 1, 2, 3], pre=pre, post=post)
    # longer strings: a few hundred cells
    for n in range(16 if tier == 'quick' else 120):
        pal = rng.choice(PALETTES)[:3]
        a = randstr(rng, pal, rng.randint(30, 70))
        b = mutate(rng, a, pal, rng.randint(1, 25))
        yield from every(a, b, [1, 5, 10, 20, 40])
    # cores longer than a byte can count
    for n in range(2 if tier == 'quick' else 10):
        pal = rng.choice(PALETTES)[:4]
        a = randstr(rng, pal, rng.randint(258, 290))
        b = mutate(rng, a, pal, rng.randint(2, 40)) if n % 2 else randstr(rng, pal, rng.randint(258, 290))
        yield from every(a, b, [3, 20, 257, 300])
    # long strings with few differences, far apart
    for n in range(40 if tier == 'quick' else 300):
        pal = rng.choice(PALETTES)[:rng.choice([1, 2, 4])]
        a = randstr(rng, pal, rng.choice([80, 130, 200, 257, 513, 700, 1025]))
        b = list(a)
        for _ in range(rng.randint(0, 4)):
            p = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
            r = rng.random()
            if r < .4:
                b[p] = rng.choice(pal + [120])
            elif r < .6:
                del b[p]
            elif r < .8:
                b.insert(p, rng.choice(pal + [120]))
            elif p:
                b[p - 1], b[p] = b[p], b[p - 1]
        if rng.random() < .5:
            a, b = b, a
        yield from every(a, b, [0, 1, 2, 3, 5, 40], near=5)
    for fn in ('lev', 'lim', 'lte1', 'dam1'):
        for a, b, k in (([97], [98], 1), ([97, 98], [98, 97, 99], 3), ([97, 98, 99], [97, 98, 100], 2)):
            if fn == 'lev':
                yield dict(op='mem', fn=fn, a=a, b=b, k=k, n=60, calls=6000, allow_kb=3000)
            else:
                yield dict(op='mem', fn=fn, a=a, b=b, k=k, n=1500, calls=3000, allow_kb=6000)
