"""Helpers shared by the drivers."""


def S(cps):
    """code points -> str"""
    return ''.join(map(chr, cps))


def cps(s):
    """str -> code points (strict)"""
    if type(s) is not str:
        raise TypeError('expected str, got %s' % type(s).__name__)
    return [ord(c) for c in s]


def integer(x):
    if isinstance(x, bool) or not isinstance(x, int):
        if isinstance(x, float) and x == int(x):
            return int(x)
        raise TypeError('expected int, got %r' % (x,))
    if abs(x) >= 1 << 31:
        raise OverflowError('too large: %r' % x)
    return int(x)


def boolean(x):
    if not isinstance(x, bool):
        raise TypeError('expected bool, got %r' % (x,))
    return x


ASCII = [97, 98, 99, 100, 101]
PALETTES = [
    [97, 98, 99, 100, 101],
    [0xe9, 0x65, 0x301, 0x20, 0x4e2d],
    # astral code points, some equal modulo 2^16, some equal to a BMP one modulo 2^16
    [0x1F600, 0x2F600, 0xF600, 0x1F601, 0x61],
    [0x10061, 0x61, 0x20061, 0x62, 0x10062],
    [0x161, 0x61, 0x261, 0x100, 0x0],
]


def paint(ids, pal):
    return [pal[x % len(pal)] if x >= 1 else pal[0] for x in ids]


def randstr(rng, alpha, n):
    return [rng.choice(alpha) for _ in range(n)]


def mutate(rng, s, alpha, k, swaps=True):
    s = list(s)
    for _ in range(k):
        r = rng.random()
        if r < .3 and s:
            s[rng.randrange(len(s))] = rng.choice(alpha)
        elif r < .55 and s:
            del s[rng.randrange(len(s))]
        elif r < .8 or len(s) < 2 or not swaps:
            s.insert(rng.randrange(len(s) + 1), rng.choice(alpha))
        else:
            p = rng.randrange(len(s) - 1)
            s[p], s[p + 1] = s[p + 1], s[p]
    return s


def rat(x, maxden=5000):
    """A float that must be a small rational: [numerator, denominator], else a marker no rational equals."""
    from fractions import Fraction
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise TypeError('expected a number, got %r' % (x,))
    if x != x or x in (float('inf'), float('-inf')):
        return [0, 0]
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > 1e-9 * max(1, abs(x)) or abs(f.numerator) >= 1 << 30:
        return [0, 0]
    return [f.numerator, f.denominator]


def hilo(x):
    """An unsigned 32-bit integer as two 16-bit halves (TLC's integers are signed 32-bit)."""
    x = int(x)
    if not 0 <= x < 1 << 32:
        return [-1, 0]
    return [x >> 16, x & 0xffff]
