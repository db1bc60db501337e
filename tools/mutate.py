#!/usr/bin/env python3
"""mutate.py [--files a.py,b.py] [--max N] [--jobs J] [--seed S] OUT.jsonl

Systematic small changes to /repo (scratch copies only): those the repository's tests let through
are handed to the checks of the properties anchored in the changed file.  Prints the survivors.
"""
import sys, os, ast, json, random, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf.catalog import CATALOG

CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.RShift: ['<<'], ast.LShift: ['>>']}


def mutants(src):
    """(start, end, replacement, label) on the source text"""
    tree = ast.parse(src)
    off = [0]
    for line in src.splitlines(True):
        off.append(off[-1] + len(line.encode()))
    raw = src.encode()
    P = lambda l, c: off[l - 1] + c
    beg = lambda n: P(n.lineno, n.col_offset)
    end = lambda n: P(n.end_lineno, n.end_col_offset)
    text = lambda n: raw[beg(n):end(n)].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr):
            docs.add(id(n.body[0]))
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                out.append((end(n.left), beg(n.comparators[0]), ' %s ' % r, 'cmp'))
        elif isinstance(n, ast.BinOp):
            for r in BIN.get(type(n.op), []):
                mid = raw[end(n.left):beg(n.right)].decode()
                for o in '+ - * // % & | >> <<'.split():
                    if o in mid:
                        out.append((end(n.left), beg(n.right), ' %s ' % r, 'bin'))
                        break
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((end(n.target), beg(n.value), ' -= ' if isinstance(n.op, ast.Add) else ' += ', 'aug'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append((beg(n), end(n), str(n.value + 1), 'const+'))
            if n.value:
                out.append((beg(n), end(n), str(n.value - 1), 'const-'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            out.append((beg(n), end(n), str(n.value * 2), 'float'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((beg(n), end(n), str(not n.value), 'bool'))
        elif isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                mid = raw[end(a):beg(b)].decode()
                o, r = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                if mid.count(o) == 1:
                    out.append((end(a), beg(b), mid.replace(o, r), 'boolop'))
            for a in n.values:
                out.append((beg(a), end(a), 'True' if isinstance(n.op, ast.And) else 'False', 'drop-operand'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((beg(n), end(n), text(n.operand), 'not'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in ('True', 'False'):
                if not (isinstance(n, ast.While) and v == 'True'):
                    out.append((beg(n.test), end(n.test), v, 'test'))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((beg(n), end(n), 'pass', 'jump'))
            out.append((beg(n), end(n), 'break' if isinstance(n, ast.Continue) else 'continue', 'jump'))
        elif isinstance(n, ast.Expr) and id(n) not in docs and not isinstance(n.value, ast.Constant):
            out.append((beg(n), end(n), 'pass', 'stmt'))
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'sorted', 'set', 'list', 'any', 'all', 'abs', 'int'):
            o = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'set': 'list', 'list': 'set', 'abs': '', 'int': 'round'}[n.func.id]
            out.append((beg(n.func), end(n.func), o, 'call'))
        elif isinstance(n, (ast.List, ast.Set, ast.Tuple)) and len(n.elts) > 2 and all(isinstance(e, ast.Constant) for e in n.elts):
            for e in n.elts:
                a, b = beg(e), end(e)
                k = raw[b:b + 2]
                if k[:1] == b',':
                    out.append((a, b + 1, '', 'elt'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 2 <= len(n.value) <= 80 and '\n' not in n.value and not n.value.startswith('fog.') and '"' not in n.value and "'" not in n.value:
            t = text(n)
            if t[0] in '\'"' and not t.startswith(('"""', "'''")):
                out.append((beg(n), end(n), t[:-2] + t[-1], 'str'))
    seen = set()
    lines = src.splitlines()
    for a, b, r, k in out:
        at = lines[raw[:a].count(b'\n')]
        if 'raise ' in at or 'AT_LEAST' in at or k == 'str' and 'help' in at:
            continue
        new = raw[:a] + r.encode() + raw[b:]
        if new in seen or new == raw:
            continue
        seen.add(new)
        try:
            s = new.decode()
            compile(s, 'x', 'exec')
        except Exception:
            continue
        yield a, b, r, k, s


TEST = ('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --ignore=test/clustering/minhash_test.py '
        '--ignore=test/clustering/nn_descent_test.py --ignore=test/clustering/ppjoin_test.py '
        '--ignore=test/clustering/quickjoin_test.py test')


def main():
    a = sys.argv[1:]
    opt = dict(max=60, jobs=4, seed=1, files='')
    while a and a[0].startswith('--'):
        opt[a[0][2:]] = a[1]
        a = a[2:]
    outp = a[0]
    props = {}
    for c in CATALOG:
        for f in c['files']:
            props.setdefault(f, []).append(c['id'])
    files = opt['files'].split(',') if opt['files'] else sorted(f for f in props if f.endswith('.py'))
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        ms = list(mutants(src))
        random.Random('%s/%s' % (f, opt['seed'])).shuffle(ms)
        for m in ms[:int(opt['max'])]:
            todo.append((f, src, m))
    random.Random(int(opt['seed'])).shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['r']))
    todo = [t for t in todo if (t[0], t[2][0], t[2][1], t[2][2]) not in done]
    base = tempfile.mkdtemp(prefix='mut_')
    cache = os.path.join(base, 'cache')
    os.makedirs(cache)
    import queue
    q = queue.Queue()
    for j in range(int(opt['jobs'])):
        subprocess.check_call('cp -a /repo %s/r%d' % (base, j), shell=True)
        q.put('%s/r%d' % (base, j))
    out = open(outp, 'a')

    def run(t):
        f, src, (s, e, r, kind, new) = t
        repo = q.get()
        try:
            open(os.path.join(repo, f), 'w').write(new)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=repo)
            try:
                k = subprocess.run(TEST, shell=True, cwd=repo, env=env, capture_output=True, text=True, timeout=100, start_new_session=True)
                ok = k.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            line = src.encode()[:s].count(b'\n') + 1
            ev = dict(file=f, a=s, b=e, r=r, kind=kind, line=line, old=src.splitlines()[line - 1].strip()[:110],
                      new=new.splitlines()[line - 1].strip()[:110], tests=ok)
            if ok:
                ev['checks'] = {}
                for p in props[f]:
                    env2 = dict(os.environ, VF_REPO=repo, VF_EVIDENCE=repo + '_ev', VF_CASECACHE=cache, VF_SHOW='1', VF_WORKERS='2')
                    k = subprocess.run(['python3', 'check.py', p], cwd=HERE, env=env2, capture_output=True, text=True)
                    ev['checks'][p] = k.returncode
                    if k.returncode not in (0, 1):
                        ev['tail'] = k.stdout[-300:]
                    if k.returncode == 1:
                        break
                ev['caught'] = 1 in ev['checks'].values()
            out.write(json.dumps(ev) + '\n')
            out.flush()
            if ok and not ev['caught']:
                print('SURVIVES %s:%d %s  [%s -> %s] %s' % (f, line, kind, ev['old'], ev['new'], ev['checks']), flush=True)
        except Exception as x:
            print('ERROR', f, x, flush=True)
        finally:
            open(os.path.join(repo, f), 'w').write(src)
            q.put(repo)
    try:
        with ThreadPoolExecutor(int(opt['jobs'])) as ex:
            list(ex.map(run, todo))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('finished', flush=True)


if __name__ == '__main__':
    main()
