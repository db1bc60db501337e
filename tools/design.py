#!/usr/bin/env python3
"""Rewrites the per-property table of DESIGN.md from the catalog, the configurations and the last evidence (quick tier)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.catalog import CATALOG
from vf.props import PROPS


def scope(module, cfg, tier):
    f = os.path.join(HERE, 'spec', 'cfg', '%s.%s.cfg' % (cfg, tier))
    if not os.path.exists(f):
        f = os.path.join(HERE, 'spec', 'cfg', '%s.cfg' % cfg)
    t = open(f).read()
    t = re.sub(r'\\\*.*', '', t)
    m = re.search(r'CONSTANTS?(.*?)(?=SPECIFICATION|INVARIANT|PROPERT|CHECK_DEADLOCK|CONSTRAINT|VIEW|SYMMETRY|$)', t, re.S)
    c = re.sub(r'\s+', ' ', m.group(1)).strip() if m else ''
    c = re.sub(r'Emit = \w+', '', c)
    c = re.sub(r'\s+', ' ', c).strip()
    inv = re.findall(r'(?:INVARIANTS?|PROPERT(?:Y|IES))([^=]*?)(?=SPEC|INVARIANT|PROPERT|CHECK_DEADLOCK|CONSTRAINT|CONSTANT|VIEW|$)', t, re.S)
    return c, ' '.join(' '.join(inv).split())


def main():
    out = []
    for p in CATALOG:
        i = p['id']
        e = None
        f = os.path.join(HERE, 'evidence', i + '.json')
        if os.path.exists(f):
            e = json.load(open(f))
            if e.get('tier') != 'quick':
                e = None
        out.append('### %s %s' % (i, p['title']))
        seen = set()
        for module, cfg in PROPS[i]['models']:
            q, inv = scope(module, cfg, 'quick')
            t, _ = scope(module, cfg, 'thorough')
            n = ''
            for m in (e or {}).get('coverage', {}).get('models', []):
                if m['cfg'].startswith(cfg + '.'):
                    n = ' %d states.' % m['distinct']
            out.append('- model `%s` (%s): checks %s. Quick: %s.%s Thorough: %s.' % (module, cfg, inv or 'type/ends', q, n, t if t != q else 'same'))
        if e:
            c = e['coverage']
            out.append('- conformance: driver `drivers/%s.py`, judge `%s`; %d calls judged (%d from the model\'s own cases), %s; %d s quick.' % (
                PROPS[i]['driver'], PROPS[i]['judge'], c['traces_validated_against_impl'], c.get('cases_from_specification', 0),
                ', '.join('%s %d' % kv for kv in sorted(c.get('calls_per_operation', {}).items())), round(e['wall_s'])))
        out.append('- what tests cannot reach: ' + p['why'])
        out.append('')
    put('properties', out)
    put('modules', modules())
    put('planted', planted())


def put(mark, lines):
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = '<!-- %s -->' % mark, '<!-- /%s -->' % mark
    s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + s[s.index(b):]
    open(path, 'w').write(s)


def modules():
    out = ['| module | content |', '|---|---|']
    d = os.path.join(HERE, 'spec')
    for f in sorted(os.listdir(d)):
        if f.endswith('.tla'):
            t = open(os.path.join(d, f)).read()
            m = re.search(r'\(\*(?:\*+\)\s*)?(?:\(\*)?(.*?)(?:\(\*\*\*|\n[^(\s]|\n\n)', t, re.S)
            c = ' '.join(re.sub(r'[(]\*|\*[)]|\*\*+\)?', ' ', m.group(1)).split()) if m else ''
            out.append('| %s | %s |' % (f[:-4], c.replace('|', '\\|')))
    return out


def planted():
    out = ['| bug | property | breaks | needs |', '|---|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    for f in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, f, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (f, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
    return out


main()
