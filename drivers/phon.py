"""Replays into fog.phonetics."""
from vf.util import *


def tables(s):
    from unidecode import unidecode
    chars = set(c for c in s if ord(c) >= 128)
    every = chars | set(d for c in chars for d in c.upper() + c.lower() if ord(d) >= 128)
    return dict(up=[[ord(c), cps(c.upper())] for c in sorted(chars)], low=[[ord(c), cps(c.lower())] for c in sorted(chars)],
                u=[[ord(c), cps(unidecode(c))] for c in sorted(every)])


def op(name):
    def f(c):
        import fog.phonetics as P
        s = S(c['s'])
        d = tables(s)
        d['r'] = cps(getattr(P, name)(s))
        return d
    return f


OPS = dict(cologne=op('cologne'), rusalka=op('rusalka'))
NAME = dict(C30='cologne', C36='rusalka')
COL = ['ph', 'P', 'H', 'C', 'c', 'ck', 'sch', 'tsch', 'x', 'X', 'cx', 'kx', 'qx', 'dt', 'ds', 'tz', 'tc', 'Ä', 'ö', 'ü', 'Ü', 'ß', 'sc', 'zc', 'll', 'mn', 'a', 'e', 'i', 'j', 'y', 'o', 'u',
       'b', 'p', 'd', 't', 'f', 'v', 'w', 'g', 'k', 'q', 'l', 'm', 'n', 'r', 's', 'z', '-', ' ', "'", '7', 'é', 'ñ', 'Ж', '北', 'Þ', 'œ', 'ça', 'cl', 'cr', 'ch', 'ca']
RUS = ['cz', 'ij', 'iy', 'f', 'v', 'w', 'ph', 'e', 'ye', 'je', 'E', 'Y', 'ch', 'sh', 'tch', 'dsh', 'tz', 'zh', 'dzh', 'j', 'dj', 'tj', 'ks', 'x', 'y', 'ya', 'iou', 'c', 'g', 'k', 'h', 'hh',
       'a', 'i', 'o', 'u', 's', 't', 'd', 'z', 'l', 'm', 'n', 'r', 'b', 'p', 'č', 'š', 'ŝ', 'û', 'ž', 'Č', 'Ž', 'â', 'é', '北', 'Ж', 'щ', 'ß', '-', ' ', "'", '5', 'kk', 'ss', 'eiou']


def expand(prop, cases):
    for t in cases:
        yield dict(op=NAME[prop], s=t['s'])


def gen(prop, rng, tier):
    parts = COL if prop == 'C30' else RUS
    for k in range(50000 if tier == 'thorough' else 9000):
        s = ''.join(rng.choice(parts) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20] if k % 8 else [40, 80] if k % 80 else [160, 300])))
        r = rng.random()
        if r < .15:
            s = s.upper()
        elif r < .3:
            s = s.capitalize()
        if 'ſ' in s or 'İ' in s:
            continue
        yield dict(op=NAME[prop], s=cps(s))
