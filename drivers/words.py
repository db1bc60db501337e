"""Replays into fog.tokenizers.WordTokenizer."""
import random
from vf.util import *


def tables(*texts):
    """What the unicode tables and the emoji library say of the characters outside ASCII."""
    from emoji import get_emoji_regexp
    from unidecode import unidecode
    chars = sorted(set(c for t in texts for c in t if ord(c) >= 128))
    pick = lambda f: [ord(c) for c in chars if f(c)]
    em = sorted(set(m.group(0) for t in texts for m in get_emoji_regexp().finditer(t)))
    return dict(sp=pick(str.isspace), an=pick(str.isalnum), al=pick(str.isalpha), dg=pick(str.isdigit),
                up=pick(str.isupper), lw=pick(str.islower), em=[cps(x) for x in em],
                low=[[ord(c), cps(c.lower())] for c in chars], u=[[ord(c), cps(unidecode(c))] for c in closed(chars)])


def closed(chars):
    return sorted(set(chars) | set(d for c in chars for d in c.lower() if ord(d) >= 128))


def encode(ts):
    out = []
    for t in ts:
        if type(t) is not tuple or len(t) != 2 or type(t[0]) is not str:
            raise TypeError('not a token: %r' % (t,))
        out.append([t[0], cps(t[1])])
    return out


def op_plain(c):
    from fog.tokenizers import WordTokenizer, words_tokenizer
    s = S(c['s'])
    t = words_tokenizer if c.get('shared') else WordTokenizer()
    r = encode(t(s))
    if encode(t.tokenize(s)) != r:
        raise AssertionError('not repeatable')
    d = tables(s)
    d['r'] = r
    return d


def op_options(c):
    from html import unescape
    from fog.tokenizers import WordTokenizer
    o = c['o']
    kw = {}
    for k, name in dict(lower='lower', unidecode='unidecode', reduce='reduce_words', html='decode_html_entities',
                        norm_m='normalize_mentions', norm_h='normalize_hashtags', m_as_w='mentions_as_words',
                        h_as_w='hashtags_as_words', split='split_hashtags').items():
        if o[k]:
            kw[name] = True
    given = c.get('given', [])          # options given as empty collections, or zero
    if o['min'] or 'min' in given:
        kw['min_word_length'] = o['min']
    if o['max']:
        kw['max_word_length'] = o['max']
    how = {'list': list, 'set': set, 'tuple': tuple, 'iter': iter}[c.get('as', 'list')]
    if o['stop'] or 'stop' in given:
        kw['stoplist'] = how([S(x) for x in o['stop']])
    if o['keep']:
        kw['keep'] = how([x for x in o['keep'] if x != 'nothing'])
    if o['drop'] or ('drop' in given and not o['keep']):
        kw['drop'] = how(o['drop'])
    s = S(c['s'])
    t = WordTokenizer(**kw)
    r = encode(t(s))
    if encode(t(s)) != r:
        raise AssertionError('not repeatable')
    h = unescape(s) if o['html'] else s
    d = tables(h, *[S(x) for x in o['stop']])
    d.update(r=r, h=cps(h))
    return d


def op_refused(c):
    from fog.tokenizers import WordTokenizer
    try:
        WordTokenizer(**c['kw'])
    except TypeError:
        return dict(refused=True)
    return dict(refused=False)


OPS = dict(cover=op_plain, rules=op_plain, options=op_options, refused=op_refused)

CHUNKS = ['a', 'b', 'le', 'Le', 'on', 'y', 'va', 't', 'T', 'O', 'o', 'n', 's', 'S', 'd', 'll', 're', 'hui', 'h', 'herbe', 'arbre',
          'été', 'É', 'U', 'ÉU', 'Œ', 'œuvre', 'Mr', 'mme', 'etc', 'no', 'p', 'pp', 'st', 'tis', 'twas', 'Twas', 'I', 'AB', 'cd', 'x',
          '1', '7', '12', '1990', '4.5', '5,6', '-', '-', '--', '.', '.', ',', "'", "'", '’', "''", '_', '·', '!', '?', '...', '(', ')',
          '"', ':', ';', '/', '\\', '%', '€', '&', '+', '=', '<', '>', '^^', '^', '<3', ':)', ':-P', '->', '<--', '@', '#', '$', '@yom', '#Foo',
          '#FooBar12', '$cash', '@a_1', 'http://', 'https://', 'http://a.b/c', 'john@x.net', '~', '|', '*', '[', ']',
          ' ', ' ', ' ', '\t', '\n', '\x01', '\x1f', '\u00a0', '\u2003', '中', '文', 'Ж', 'й', 'ª', 'º', '²', '٣', '«', '»', '—', '…',
          '🐱', '⭐', '⭐\ufe0f', '🇫🇷', '👨\u200d👨\u200d👧\u200d👧', '👍🏽', '❤', '❤\ufe0f', '🙏', '\u200d', '\u0301', 'ß', '8', 'D', 'P', "l'", "qu'", '-t-', '-je', '-moi', 'R.I.P']
PAIRS = ["aujourd'hui", "can't", "l'été", "O'Hara", "D'mitr", "90's", "chef-d'œuvre", 'va-t-on', 'est-il', 'A.B-c', 'AB.cd', 'x-t-!', '-.', '-5', '-,5x',
         "@user's", "#tag's", "#l'arbre", "12'30", "U.S.'s", 'M. x', 'etc. x', '11º', '1e5', '8pm', '10-je', "-'s", "'twas", "'A.B.", 'a_!', 'a_',
         '$_', '#_', '@_', '$_a', '#_1', '@_ ', '#__', '@x' * 9, '@' + 'Ab9_' * 20, '#' + 'aB1' * 30, '$' + 'ABCDE' * 6, 'a' * 70, 'aé' * 40, '12' * 40, '1,' * 20 + '5', 'http://' + 'a/b.c?' * 15, 'x.y' * 9 + '@' + 'z' * 30 + '.net', "a'" * 15, 'a-' * 40, 'A.' * 20, '!?' * 20, '.' * 70,
         'x' * 63 + '@y', 'x' * 64 + '@y', '-' * 63 + '>', '-' * 64 + '>', '<' + '-' * 70]


def text(rng, n, chunks=CHUNKS):
    out = []
    while len(out) < n:
        r = rng.random()
        if r < .8:
            out.append(rng.choice(chunks))
        elif r < .9:
            out.append(rng.choice(PAIRS))
        elif r < .97:
            out.append(' ')
        else:
            out.append(rng.choice(['ab', 'Ab', 'aB1', 'été', 'xyz']))
    return cps(''.join(out))


ABBREVIATIONS = 'apt appt dr etc jr m mgr min mr mrs ms mme mlle no p pp prof sr st vs'.split()
CONTRACTIONS = 'll re m s ve d'.split()
TARGETS = 'je tu il ils elle elles nous vous on le la les moi toi lui y'.split()
LETTERS = 'aáàâäąåoôóøeéèëêęiíïîıuúùûüyÿæœAÁÀÂÄĄÅOÓÔØEÉÈËÊĘIİÍÏÎYŸUÚÙÛÜÆŒ' + 'bcçdfgñhjklmnpqrsßtvwxzBCÇHÑZЖй中1²'


def systematic():
    """Every entry of every list of the rules, in the contexts where it matters."""
    for w in ABBREVIATIONS + ['et', 'mlles', 'a', 'prf', 'é', 'nos', 'van']:
        for v in (w, w.upper(), w.capitalize(), 'x' + w, w + 'x', '#' + w, '@' + w):
            for e in ('.', '. ', '. x', '.x', '..', '.,', '! .'):
                yield v + e
    for w in CONTRACTIONS + ['LL', 'S', 'D', 'l', 'r', 'v', 'mm', 'ss', 'res', 'tis', 'n', 't', 'T', 'hui', 'Hui', 'huit']:
        for a in "'’":
            for b in ('I', 'we', 'John', 'can', 'CAN', 'aujourd', 'rock-n', '90', 'Mac', 'Mc', 'D', 'd', 'O', 'L', 'qu', 'St', '#tag', '@user', 'U.S', 'a_b', 'été', ''):
                yield b + a + w
                yield b + a + w + ' ok'
                yield b + a + w + '.'
    for w in ('tis', 'twas', 'Twas', 'TIS', 'twa', 'til', 'twass', 'em'):
        for a in "'’":
            for b in ('', 'x ', '"', '('):
                yield b + a + w
                yield b + a + w + ' so'
                yield b + a + w + a + 's'
    for t in TARGETS + ['leur', 'en', 'Je', 'IL', 'yy', 'l', 'eux', 'ont']:
        for b in ('va', 'Donne', 'A', '9a', 'va-t', 'x-y', '', 'l\'a', 'va_t', 'va-T', 'v-t'):
            yield b + '-' + t
            yield b + '-' + t + '!'
            yield b + '-' + t + ' x'
            yield b + '-' + t + '-'
            yield t + '-' + (b or 'o')
    for x in LETTERS:
        for y in 'baéhHtO1#@$œß':
            for a in "'’":
                yield x + a + y
                yield 'm' + x + a + y + 'r'
                yield y + a + x
                yield 'z' + y + a + x + 'z'
    eyes, nose, mouth = ':;=8', ['', '-', 'o', '*', "'", '^', '--'], ')](dDpP/:}{@|\\[xO'
    for e in eyes + 'xB':
        for n in nose:
            for m in mouth:
                for h in ('', '<', '>', '}'):
                    yield h + e + n + m
                yield m + n + e
                yield 'ok ' + e + n + m + ' ok'
                yield 'ok' + m + n + e + '5'
    for n in range(1, 6):
        yield '-' * n + '>'
        yield '<' + '-' * n
        yield '<' + '-' * n + '>'
        yield 'a ' + '-' * n
        yield '-' * n + 'a'
        yield '^' * n
        yield '<3' * n
        yield ':3' * n
    for k in list(range(0, 161)) + [0x2028, 0x85, 0x3000, 0x200b, 0xfeff, 0xad, 0x300, 0x301, 0x1d7d8, 0x2160, 0x2460, 0xbd, 0xfe0e, 0xfe0f, 0x200d, 0x1f3fb, 0x20e3]:
        c = chr(k)
        for f in ('a%cb', '1%c2', 'A%cB', '%ca', 'a%c', '%c', '1%c', '%c1', 'a%cb@x.y', '#a%cb', '@a%cb', '$a%cb', 'http://a%cb', "a'%cb", "a%c'b", '-%c', '-%c2', '1.%c', '1.%c5', '1.5%c',
                  'A.%cB', 'A.B%c', 'va-%c', '#%c', '@%c', '.%c.', 'a.%cb', '%c%c' % (k, k) if c != '%' else '%c', 'http%c://a', 'a@%c', "'%ca", "%c'a", '🐱%c🐱'):
            yield f % c if f.count('%') == 1 and '%c' in f else f


def expand(prop, cases):
    if prop == 'C35':
        for n, t in enumerate(cases):
            yield dict(op='options', s=t['s'], o=t['o'], **{'as': ['list', 'set', 'tuple', 'iter'][n % 4]})
        return
    op = dict(C28='cover', C29='rules')[prop]
    for n, t in enumerate(cases):
        yield dict(op=op, s=t['s'], shared=n % 2 == 0)


OPT = dict(lower=False, unidecode=False, reduce=False, html=False, norm_m=False, norm_h=False, m_as_w=False, h_as_w=False, split=False,
           min=0, max=0, stop=[], keep=[], drop=[])
TYPES = ['word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention']
HTML = ['&amp;', '&eacute;', '&#39;', '&lt;3', '&nbsp;', '&#34;', '&nosuch;', '&amp;amp;']
LONG = ['aaaaa', 'aaaa', 'Looooool', '_____', '55555', '.....', 'ééééééé', 'AAAAAaaaaa', 'heeeeeeey', 'eéeéeéhé', 'eeéêe', 'ooôoo5', 'çcccc', 'ssßss', '&eacute;eeee', 'aaa', 'ooooo#ooooo', '@aaaaaa', '#Goooooal', 'éeeee', 'ÉÉÉÉÉ', '中中中中中', '一一一一一一']
HASH = ['#ÉpopéeRusse', '#TDF2018', '#a1b2', '#FooBar', '#T', '#中文A', '#HTTPServer2Go', '#fooBARbaz', '#ABc9D', '#x²y', '#Été2018été', '$AAPL', '@YomGui', '@A_b9',
        "#FooBar's", "@User's", "#L'arbre", '#ßtraße', '#ab²c', '#x²', '#aB²C', '#²aB', '#Ab²²C1', '#a½B', '#aⅧB', '#a٣B', '#A' + 'bC' * 12, '#' + 'Foo12' * 8]


def gen(prop, rng, tier):
    big = tier == 'thorough'
    if prop in ('C28', 'C29'):
        op = dict(C28='cover', C29='rules')[prop]
        for p in PAIRS + CHUNKS:
            for q in ('', ' ', '.', "'s", ' x'):
                yield dict(op=op, s=cps(p + q))
        seen = set()
        for x in systematic():
            if x not in seen:
                seen.add(x)
                yield dict(op=op, s=cps(x), shared=len(seen) % 2 == 0)
        for k in range(30000 if big else 5000):
            if k % 4 == 0:
                ch = rng.sample(CHUNKS, rng.randrange(3, 8))
            else:
                ch = CHUNKS
            yield dict(op=op, s=text(rng, rng.choice([1, 2, 3, 4, 6, 9, 9, 30]), ch), shared=rng.random() < .5)
    else:
        for k in range(20000 if big else 6000):
            o = dict(OPT)
            for name in rng.sample(['lower', 'unidecode', 'reduce', 'html', 'norm_m', 'norm_h', 'm_as_w', 'h_as_w', 'split'], rng.choice([0, 1, 1, 2, 3, 5])):
                o[name] = True
            r = rng.random()
            if r < .2:
                o['keep'] = rng.sample(TYPES, rng.randrange(1, 5)) if r > .02 else ['nothing']
            elif r < .4:
                o['drop'] = rng.sample(TYPES, rng.randrange(1, 5))
            if rng.random() < .3:
                o['min'] = rng.randrange(1, 4)
            if rng.random() < .3:
                o['max'] = o['min'] + rng.randrange(1, 5)
            n = rng.choice([1, 2, 3, 4, 6, 12])
            parts = []
            for _ in range(n):
                parts.append(rng.choice(rng.choice([CHUNKS, HASH, HASH, LONG, HTML, PAIRS])))
                if rng.random() < .2:
                    alphabet = rng.choice(['aB1', 'abAB', 'aB1²', 'aA1中', 'éÉ12', 'a1ªʰ٣', 'ǅaA1'])
                    parts.append(rng.choice('###$@') + ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 9))))
                if rng.random() < .6:
                    parts.append(' ')
            s = ''.join(parts)
            if rng.random() < .4:
                cand = s.split() if rng.random() < .4 and s.split() else s.replace("'", ' ').replace('#', ' ').split() or ['a']
                o['stop'] = [cps(rng.choice([str, str.lower, str.upper])(rng.choice(rng.choice([cand, CHUNKS])))) for _ in range(rng.choice([1, 2, 3, 3, 12, 30]))]
            c = dict(op='options', s=cps(s), o=o, **{'as': rng.choice(['list', 'set', 'tuple', 'iter'])})
            if rng.random() < .15:
                c['given'] = rng.sample(['min', 'stop', 'drop'], rng.randint(1, 3))
            yield c
        for kw in (dict(keep=['word'], drop=['emoji']), dict(keep=['words']), dict(drop=['words']), dict(min_word_length=5, max_word_length=4),
                   dict(min_word_length=4, max_word_length=4), dict(keep=['word', 'nope']), dict(drop=['']), dict(keep=['word'], drop=['word'])):
            yield dict(op='refused', kw=kw)
