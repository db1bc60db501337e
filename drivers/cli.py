"""Runs the command line of fog in process, on files of a scratch directory."""
import csv
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
from html.parser import HTMLParser
from vf.util import *


def tables(*texts):
    from unidecode import unidecode
    chars = set(c for t in texts for c in t if ord(c) >= 128)
    more = chars | set(d for c in chars for d in c.upper() + c.lower() if ord(d) >= 128)
    return dict(sp=[ord(c) for c in sorted(more) if c.isspace()], up=[[ord(c), cps(c.upper())] for c in sorted(more)],
                low=[[ord(c), cps(c.lower())] for c in sorted(more)], u=[[ord(c), cps(unidecode(c))] for c in sorted(more)])


def fog(args, head, rows, how, blanks=False):
    """Run `fog ARGS`; how: 'file' reads and writes files, 'pipe' goes through stdin and stdout."""
    from fog.cli.__main__ import main
    d = tempfile.mkdtemp(dir=os.environ.get('VF_SCRATCH'))
    keep = sys.argv, sys.stdin, sys.stdout
    try:
        src = os.path.join(d, 'in.csv')
        out = os.path.join(d, 'out')
        buf = io.StringIO(newline='')
        w = csv.writer(buf)
        for k, r in enumerate([head] + rows):
            w.writerow(r)
            if blanks:
                buf.write('\r\n')
        with open(src, 'w', newline='', encoding='utf-8') as f:
            f.write(buf.getvalue())
        if how == 'file':
            sys.argv = ['fog'] + args + [src, '-o', out]
            main()
            with open(out, newline='', encoding='utf-8') as f:
                return f.read()
        if how == 'module':
            # the way of the shell
            with open(src, encoding='utf-8') as f:
                r = subprocess.run([sys.executable, '-m', 'fog.cli'] + args, stdin=f, capture_output=True, cwd=d,
                                   env=dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x), PYTHONIOENCODING='utf-8'))
            if r.returncode:
                raise RuntimeError('exit %d %s' % (r.returncode, r.stderr[-60:]))
            return r.stdout.decode('utf-8')
        sys.argv = ['fog'] + args
        sys.stdin = open(src, encoding='utf-8')
        sys.stdout = io.StringIO(newline='')
        main()
        return sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout = keep
        shutil.rmtree(d, ignore_errors=True)


def read(text):
    r = [[cps(x) for x in row] for row in csv.reader(io.StringIO(text, newline=''))]
    return dict(head2=r[0], rows2=r[1:])


def table(c):
    return [S(x) for x in c['head']], [[S(x) for x in r] for r in c['rows']]


def op_split(c):
    head, rows = table(c)
    o = c['o']
    a = ['split', S(c['col'])]
    if o['sep'] != [124] or c.get('explicit'):
        a += ['-s', S(o['sep'])]
    if o['target']:
        a += ['--target-column', S(o['target'][0])]
    if o['rename']:
        a += ['-r', S(o['rename'][0])]
    a2 = a[:2] if c['how'] == 'file' else a
    # options come after the positional arguments or before them
    return read(fog(a2 if c['how'] != 'file' else [a[0]] + a[2:] + [a[1]], head, rows, c['how'], c.get('blanks', False)))


EVAL = dict(twice='value + value', reverse='value[::-1]', unidecode='unidecode(value)', len='len(value)', upper='value.upper()')


def op_transform(c):
    head, rows = table(c)
    o = c['o']
    a = []
    if o['target']:
        a += ['-t', S(o['target'][0])]
    if o['after']:
        a += ['--after']
    if c.get('eval'):
        a += ['--eval']
        ops = EVAL[o['ops'][0]]
    else:
        ops = ','.join(o['ops'])
    d = read(fog(['transform'] + a + [S(c['col']), ops], head, rows, c['how'], c.get('blanks', False)))
    d.update(tables(*[x for r in rows for x in r]))
    return d


class Items(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.clusters, self.cells, self.mode, self.text = [], [], None, ''

    def handle_starttag(self, tag, attrs):
        if tag in ('p', 'li', 'td'):
            self.mode, self.text = tag, ''
        elif tag == 'ul':
            self.close_p()
            self.mode = None
        elif tag not in ('html', 'head', 'title', 'style', 'body', 'h1', 'h2', 'div', 'table', 'tr', 'b'):
            self.text += '<%s>' % tag

    def close_p(self):
        if self.mode == 'p':
            m = re.search(r'Cluster n°([\d,]+) \(([\d,]+) unique values, ([\d,]+) affected rows\)', self.text)
            self.clusters.append([int(m.group(k)) for k in (1, 2, 3)] + [[]])
            self.mode = None

    def handle_data(self, data):
        if self.mode:
            self.text += data

    def handle_endtag(self, tag):
        if tag == 'li':
            self.clusters[-1][3].append(self.text.strip())
            self.mode = None
        elif tag == 'td':
            self.cells.append(self.text.strip())
            self.mode = None
        elif tag == 'p':
            self.close_p()


def op_cluster(c):
    import tomllib
    head, rows = table(c)
    a = ['cluster']
    if c['type'] != 'toml' or c.get('explicit'):
        a += ['-t', c['type']]
    if c.get('explicit'):
        a += ['-a', 'fingerprint_collision']
    text = fog(a + [S(c['col'])], head, rows, c['how'], c.get('blanks', False))
    d = tables(*[x for r in rows for x in r])
    if c['type'] == 'toml':
        t = tomllib.loads(text)
        r = [dict(id=k['id'], nb_values=k['nb_values'], nb_rows=k['nb_rows'], harmonized=cps(k['harmonized']),
                  values=[[cps(v[0][0]), v[1][0]] for v in k['values']]) for k in t.get('cluster', [])]
        d.update(r=r, lines=t['stats']['lines'], distinct=t['stats']['nb_distinct_values'], found=t['stats']['nb_clusters'],
                 algorithm=t['info']['algorithm'], timed=t['stats']['took'] >= 0 and t['info']['date'] is not None,
                 undecided=all(k['harmonize'] is False for k in t.get('cluster', [])))
    else:
        h = Items()
        h.feed(text)
        stats = dict(zip(h.cells[::2], h.cells[1::2]))
        num = lambda k: int(stats[k].replace(',', ''))
        r = [dict(id=k[0], nb_values=k[1], nb_rows=k[2], harmonized=[], values=[[cps(v), 0] for v in k[3]]) for k in h.clusters]
        d.update(r=r, lines=num('Lines'), distinct=num('Distinct values'), found=num('Found clusters'),
                 algorithm=stats['Algorithm used'], timed='Took' in stats and 'Date' in stats, undecided=True)
    return d


def op_timed(c):
    """The time a report claims, against the time the whole command took, in microseconds."""
    import time
    import tomllib
    rows = [[['v%d x%d', 'X%d V%d'][k % 2] % (k // 2, k // 2)] for k in range(c['n'])]
    t = time.perf_counter()
    text = fog(['cluster', '-t', c['type'], 'v'], ['v'], rows, c['how'])
    wall = time.perf_counter() - t
    if c['type'] == 'toml':
        t = tomllib.loads(text)
        took = t['stats']['took']
        sizes = [k['nb_values'] for k in t['cluster']] + [k['nb_rows'] for k in t['cluster']]
        d = dict(lines=t['stats']['lines'], distinct=t['stats']['nb_distinct_values'], found=t['stats']['nb_clusters'])
    else:
        h = Items()
        h.feed(text)
        stats = dict(zip(h.cells[::2], h.cells[1::2]))
        a, b, s = stats['Took'].split(':')
        took = int(a) * 3600 + int(b) * 60 + float(s)
        num = lambda k: int(stats[k].replace(',', ''))
        d = dict(lines=num('Lines'), distinct=num('Distinct values'), found=num('Found clusters'))
        sizes = [x for k in h.clusters for x in (k[1], k[2])]
    return dict(d, sizes=len(sizes), odd=[x for x in sizes if x != 2], took=int(took * 1e6), wall=int(wall * 1e6))


OPS = dict(split=op_split, transform=op_transform, cluster=op_cluster, timed=op_timed)


def expand(prop, cases):
    for n, t in enumerate(cases):
        if (t['cmd'] == 'cluster') != (prop == 'C32'):
            continue
        rows = [[cps(str(k)), x] for k, x in enumerate(t['cells'], 1)]
        c = dict(op=t['cmd'], head=[cps('id'), cps('v')], rows=rows, col=cps('v'), how=['file', 'pipe'][n % 2])
        if t['cmd'] == 'cluster':
            yield dict(c, type='toml')
            yield dict(c, type='html')
        else:
            yield dict(c, o=t['o'])


WORDS = ['Paris', 'PARIS', 'paris ', 'New York', 'york new', 'York, New', 'Lyon', 'lyon', 'Lyón', '', 'a', 'A', '"q"', 'b\\c', 'B\\C', '<b>x</b>', 'x&y', 'X & Y', '&amp;', 'l1\nl2',
         'L1\nl2', '\t', 'été', 'ete', 'ÉTÉ', 'a,b', "it's", 'aab', 'aaab', '\u00a0x\u00a0', '北京', '\x7f', 'del\x7f', 'Del', '\x01', 'x\x01', 'tab\tx', 'x tab', '\\n', '\\', 'N', '0', '12', 'l1\r\nl2', 'x\ry', '\r']
SEPS = ['|', ',', ' ', '||', ';', '\n', 'a', '§', ' | ', ', ', '\t', 'a ', '.', '%', '-']


NEW = ['new', 'new', 'new', 'new', 'a,"b', 'id', '']


def gen(prop, rng, tier):
    big = tier == 'thorough'
    if prop == 'C32':
        for how in ('file', 'pipe'):
            for type in ('toml', 'html'):
                yield dict(op='timed', n=20000, type=type, how=how)
    names = ['id', 'name', 'value', 'city', 'Été', 'a b', 'x,y']
    for k in range(12000 if big else 3000):
        w = rng.randrange(1, 5)
        head = rng.sample(names, w)
        if rng.random() < .1 and w > 1:
            head[-1] = head[0]
        pos = rng.randrange(w)
        c = dict(head=[cps(x) for x in head], col=cps(head[pos]), how=rng.choice(['file', 'pipe']), blanks=rng.random() < .1, explicit=rng.random() < .3)
        n = rng.choice([0, 1, 2, 3, 5, 8, 8, 30, 80])
        if k % 150 == 1:
            n = rng.choice([130, 270, 520])
        if prop == 'C31' and k % 2 == 0:
            sep = rng.choice(SEPS)
            cell = lambda: sep.join(rng.choice(WORDS[:26]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
            c.update(op='split', rows=[[cps(cell()) for _ in range(w)] for _ in range(n)],
                     o=dict(sep=cps(sep), target=[cps(rng.choice(NEW))] if rng.random() < .5 else [], rename=[cps(rng.choice(['renamed', 'id', '']))] if rng.random() < .3 else []))
        elif prop == 'C31':
            ops = ['lower', 'upper', 'strip', 'squeeze', 'unidecode', 'fingerprint']
            chain = [rng.choice(ops) for _ in range(rng.choice([1, 1, 2, 3]))]
            ev = False
            if rng.random() < .15:
                chain = [rng.choice(sorted(EVAL))]
                ev = True
            elif rng.random() < .2:
                chain.append('len')
            c.update(op='transform', rows=[[cps(rng.choice(WORDS)) for _ in range(w)] for _ in range(n)], eval=ev,
                     o=dict(ops=chain, target=[cps(rng.choice(NEW))] if rng.random() < .6 else [], after=rng.random() < .5))
        else:
            pool = rng.sample(WORDS, rng.randrange(2, 16))
            pool += [x + rng.choice(['\n', ' ', '\t', '\r\n', '.']) for x in pool if rng.random() < .2]
            c.update(op='cluster', type=rng.choice(['toml', 'html']), rows=[[cps(rng.choice(pool)) for _ in range(w)] for _ in range(n * rng.choice([1, 2]))])
        if k < 12:
            c['how'] = 'module'
        if prop == 'C31' and rng.random() < .15 and (not c['o']['target'] or c['o'].get('after')):
            # rows of other lengths than the header, which still have the column
            c['ragged'] = True
            first = head.index(head[pos])
            for r in c['rows']:
                if rng.random() < .5:
                    if rng.random() < .5:
                        del r[rng.randint(first + 1, w):]
                    else:
                        r += [cps(rng.choice(WORDS)) for _ in range(rng.randint(1, 3))]
        if any(r == [[]] for r in c['rows']):
            c['blanks'] = False
        yield c
