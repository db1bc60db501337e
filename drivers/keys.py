"""Replays into fog.key and the fingerprint & n-gram tokenizers."""
from vf.util import *


def translit(s):
    from unidecode import unidecode
    return [[ord(c), cps(unidecode(c))] for c in sorted(set(s)) if ord(c) >= 128]


LK = dict(l1k='levenshtein_1d_keys', d1k='damerau_levenshtein_1d_keys', l1b='levenshtein_1d_blocks',
          d1b='damerau_levenshtein_1d_blocks', l2b='levenshtein_2d_blocks', d2b='damerau_levenshtein_2d_blocks')


def op_lk(c):
    import fog.key as K
    fn = getattr(K, LK[c['fn']])
    kw = {}
    if c.get('flags'):
        fl = [chr(x) for x in c['flags']]
        kw = dict(flag1=fl[0], flag2=fl[1], flag3=fl[2]) if c['fn'][1] == '2' else dict(flag=fl[0])
    a = [cps(x) for x in fn(S(c['a']), **kw)]
    b = [cps(x) for x in fn(S(c['b']), **kw)]
    again = [cps(x) for x in fn(S(c['a']), **kw)]
    if again != a:
        raise AssertionError('keys change from call to call')
    return dict(ka=a, kb=b)


def fpopts(c):
    kw = {}
    if not c['keep']:
        kw['keep_digits'] = False
    if c['squeeze']:
        kw['squeeze'] = True
    if c['split'] or c.get('emptysplit'):
        kw['split'] = [chr(x) for x in c['split']]
    if c.get('stop') or c.get('emptystop'):
        w = [S(x) for x in c['stop']]
        kw['stopwords'] = set(w) if c.get('asset') else w
    if c.get('min', 1) > 1:
        kw['min_token_size'] = c['min']
    return kw


def op_fp(c):
    from fog.tokenizers import FingerprintTokenizer, fingerprint_tokenizer
    from fog.key import FingerprintingKeyer, fingerprint
    kw = fpopts(c)
    t = FingerprintTokenizer(**kw) if kw else fingerprint_tokenizer
    k = FingerprintingKeyer(**kw) if kw else fingerprint
    s = S(c['s'])
    key = k(s)
    if t.key(s) != key or k.key(s) != key or t.tokenize(s) != t(s):
        raise AssertionError('tokenizer & keyer disagree')
    return dict(u=translit(s), r=[cps(x) for x in t(s)], key=cps(key))


def op_fpn(c):
    from fog.tokenizers import NgramsFingerprintTokenizer, ngrams_fingerprint_tokenizer
    from fog.key import NgramsFingerprintKeyer, ngrams_fingerprint
    kw = fpopts(c)
    t = NgramsFingerprintTokenizer(**kw) if kw else ngrams_fingerprint_tokenizer
    k = NgramsFingerprintKeyer(**kw) if kw else ngrams_fingerprint
    s = S(c['s'])
    key = k(c['n'], s)
    if t.key(c['n'], s) != key:
        raise AssertionError('tokenizer & keyer disagree')
    return dict(u=translit(s), r=[cps(x) for x in t(c['n'], s)], key=cps(key))


def op_grams(c):
    from fog.tokenizers import ngrams, bigrams, trigrams, quadrigrams
    from fog.tokenizers.ngrams import join_ngrams
    how, n = c['how'], c['n']
    t = S(c['s']) if how == 'str' else list(c['s']) if how == 'list' else tuple(c['s'])
    before = t[:]
    fn = {2: bigrams, 3: trigrams, 4: quadrigrams}.get(n) if c.get('short') else None
    call = (lambda: fn(t)) if fn else (lambda: ngrams(n, t))
    gs = list(call())
    r = [cps(g) if how == 'str' else list(g) for g in gs]
    return dict(r=r, typed=all(type(g) is type(t) for g in gs), mutated=t != before,
                joined=cps(join_ngrams(iter(call()))) if how == 'str' else [])


def op_gramkeys(c):
    from fog.key import ngram_keys
    kw = {} if c.get('dflt') else dict(threshold=c['p'] / c['q'])
    return dict(r=[cps(x) for x in ngram_keys(c['n'], S(c['s']), **kw)])


def op_omission(c):
    from fog.key import omission_key
    s = S(c['s'])
    return dict(u=translit(s), r=cps(omission_key(s)))


def op_skeleton(c):
    from fog.key import skeleton_key
    s = S(c['s'])
    return dict(u=translit(s), r=cps(skeleton_key(s)))


def op_zigzag(c):
    from fog.key import zig_zag
    return dict(r=[cps(S(c['s']) if f is None else f(S(c['s']))) for f in zig_zag])


OPS = dict(lk=op_lk, fp=op_fp, fpn=op_fpn, grams=op_grams, gramkeys=op_gramkeys, omission=op_omission,
           skeleton=op_skeleton, zigzag=op_zigzag)

# code points whose transliteration does not depend on lowering before or after
WIDE = [ord(x) for x in 'éÉïßÆœŁøЖй北京²½ａ«»\u00a0\u2003\u00e7\u0661\u2014']
ODD = [0, 9, 10, 13, 28, 31, 127, 0x1F600]


def fpcase(s, **kw):
    d = dict(op='fp', s=s, keep=True, squeeze=False, split=[], stop=[], min=1)
    d.update(kw)
    return d


def expand(prop, cases):
    seen = set()
    for n, t in enumerate(cases):
        if prop == 'C24':
            k = (tuple(t['a']), tuple(t['b']))
            if k in seen:
                continue
            seen.add(k)
            pal = PALETTES[n % len(PALETTES)] if n % 5 == 0 else ASCII
            pal = [x if x > 2 else 0x3b1 for x in pal]
            for fn in LK:
                yield dict(op='lk', fn=fn, a=paint([x - 1 for x in t['a']], pal) if pal is ASCII else [pal[x] for x in t['a']],
                           b=paint([x - 1 for x in t['b']], pal) if pal is ASCII else [pal[x] for x in t['b']])
        elif prop == 'C25':
            yield dict(op='omission', s=t['s'])
            yield dict(op='skeleton', s=t['s'])
        elif prop == 'C26':
            yield fpcase(t['s'], keep=t['keep'], squeeze=t['squeeze'], split=t['split'])
            yield dict(op='fpn', n=1 + n % 3, s=t['s'], keep=t['keep'], squeeze=t['squeeze'], split=t['split'])
        elif prop == 'C27':
            s = [ASCII[x] for x in t['s']]
            for how in ('str', 'list', 'tuple'):
                yield dict(op='grams', n=t['n'], s=s, how=how, short=n % 2 == 0)
            if len(s) <= 6:
                p, q = [(1, 2), (3, 4), (1, 1), (1, 4)][n % 4]
                yield dict(op='gramkeys', n=t['n'], s=s, p=p, q=q)


def texts(rng, alpha, n):
    return [rng.choice(alpha) for _ in range(n)]


def gen(prop, rng, tier):
    big = tier == 'thorough'
    if prop == 'C24':
        for k in range(12000 if big else 2000):
            pal = [x if x > 2 else 0x3b1 for x in rng.choice(PALETTES)][:rng.choice([2, 3, 5])]
            a = texts(rng, pal, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 15, 24]))
            b = mutate(rng, a, pal if rng.random() < .8 else [0x1F600, 0x10ffff, 0xe9, 0x130, 0xd7ff], rng.choice([0, 1, 1, 2, 2, 2, 3]))
            if rng.random() < .5:
                a, b = b, a
            if rng.random() < .15:
                b = texts(rng, pal, len(a))
            if k % 10 == 1:
                # one or two edits next to the ends of the blocks, every letter different from its neighbours
                pal = list(range(97, 123))
                a = [97 + (x * 7 + k) % 26 for x in range(rng.randrange(4, 26))]
                b = list(a)
                for _ in range(rng.choice([1, 1, 2])):
                    m = len(b)
                    at = min(max(0, rng.choice([m // 2, m // 3, 2 * m // 3]) + rng.choice([-2, -1, -1, 0, 1])), max(0, m - 2))
                    how = rng.randrange(4)
                    if how == 0:
                        b = b[:at] + b[at + 1:]
                    elif how == 1:
                        b = b[:at] + [65] + b[at:]
                    else:
                        b = b[:at] + b[at:at + 2][::-1] + b[at + 2:]
            elif k % 25 == 0:
                a = texts(rng, pal, rng.randrange(26, 70) if k % 200 else rng.choice([100, 150, 220, 410]))
                b = mutate(rng, a, pal, rng.choice([0, 1, 1, 2, 2, 2]))
            elif len(a) > 26 or len(b) > 26:
                continue
            fl = rng.sample([0x23, 0x24, 0x25, 0x1F4A9], 3) if rng.random() < .1 else []
            for fn in (LK if k % 3 == 0 else rng.sample(sorted(LK), 3)):
                yield dict(op='lk', fn=fn, a=a, b=b, flags=fl)
    elif prop == 'C25':
        upper = list(range(65, 91))
        for k in range(24000 if big else 6000):
            r = rng.random()
            if r < .4:
                alpha = upper + [x + 32 for x in upper]
            elif r < .7:
                alpha = rng.sample(upper, 5) + [65, 69, 101, 117, 32, 45]
            else:
                alpha = rng.sample(upper, 6) + WIDE + ODD + [97, 101]
            s = texts(rng, alpha, rng.choice([rng.randrange(0, 14), rng.randrange(0, 14), 40] + ([90] if k % 5 == 0 else [])))
            if k % 300 == 7:
                # rare letters come last
                s = texts(rng, rng.sample(upper, 3), rng.choice([270, 550])) + texts(rng, upper, 8)
            yield dict(op='omission', s=s)
            yield dict(op='skeleton', s=s)
            if k % 20 == 0:
                yield dict(op='zigzag', s=s)
    elif prop == 'C26':
        base = [97, 98, 65, 66, 122, 90, 48, 57, 32, 32, 45, 46, 39, 44]
        for k in range(20000 if big else 5000):
            alpha = rng.choice([base, base + WIDE, base + ODD, [97, 98, 32], base + WIDE + ODD])
            s = texts(rng, alpha, rng.choice([0, 1, 2, 5, 9, 16, 30, 60] + ([200, 450] if k % 10 == 0 else [])))
            o = dict(keep=rng.random() < .6, squeeze=rng.random() < .4,
                     split=rng.choice([[], [], [45], [46, 44], [93, 94, 45], [39], [92]]))
            if rng.random() < .5:
                yield fpcase(s, emptysplit=rng.random() < .05, **o)
            else:
                yield dict(op='fpn', n=rng.randrange(1, 5), s=s, **o)
        METAS = ['o.', 'a|of', 'n.rth', '(the)', 'ab+', 'aa?b', '[a-z]+', '.*', '\\w+', 'o[nf]', '(?:an)', '^the', 'th(', 'a{1,2}b']
        words = ['the', 'of', 'a', 'on', 'an', 'aab', 'north', 'carolina', 'noorth', 'university', 'ab', 'x', 'thee', 'oof']
        for k in range(10000 if big else 2500):
            ws = [rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7]) if k % 30 else rng.choice([40, 80]))]
            if k % 30 == 0:
                ws += ['w%d' % x for x in rng.sample(range(200), rng.randrange(60))]
                rng.shuffle(ws)
            ws = [w.upper() if rng.random() < .2 else w.capitalize() if rng.random() < .2 else w for w in ws]
            sep = rng.choice([' ', '  ', '\t', ' \n'])
            yield fpcase(cps(sep.join(ws)), keep=rng.random() < .7, squeeze=rng.random() < .4,
                         stop=[cps(w) for w in rng.sample(words, rng.choice([0, 1, 2, 3, len(words) - 2])) + rng.sample(METAS, rng.choice([0, 0, 0, 1, 3]))],
                         min=rng.choice([1, 1, 2, 3]), asset=rng.random() < .3, emptystop=rng.random() < .05)
    elif prop == 'C27':
        for k in range(16000 if big else 4000):
            pal = rng.choice(PALETTES)
            s = texts(rng, pal, rng.choice([rng.randrange(0, 14), rng.randrange(0, 14), rng.randrange(14, 50)] + ([120, 300, 600] if k % 100 == 0 else [])))
            n = rng.randrange(1, 7) if rng.random() < .9 else rng.randrange(7, 20) if rng.random() < .6 else rng.randrange(20, 60)
            yield dict(op='grams', n=n, s=s, how=rng.choice(['str', 'list', 'tuple']), short=rng.random() < .5)
            if len(s) > 9 and k % 9 == 0:
                # long strings: all their n-grams, or all but one or two
                s = s[:rng.choice([12, 20, 34])] if k % 4 else texts(rng, pal, rng.choice([70, 160, 420]))
                yield dict(op='gramkeys', n=rng.randint(1, 4), s=s, p=rng.choice([31, 32]) if len(s) <= 34 else 32, q=32)
            elif len(s) <= 9 and k % 2 == 0:
                if rng.random() < .2 and (len(s) - n + 1) % 5:
                    # the default threshold is 4/5: kept away from products that are exact integers
                    yield dict(op='gramkeys', n=n, s=s, p=4, q=5, dflt=True)
                else:
                    p, q = rng.choice([(1, 2), (3, 4), (1, 1), (1, 4), (7, 8), (0, 1)])
                    yield dict(op='gramkeys', n=n, s=s, p=p, q=q)
