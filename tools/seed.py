#!/usr/bin/env python3
"""seed.py ID [--nocheck] [--props C01,C02]: confirm a planted bug and tell which checks catch it.

Works in a scratch copy of /repo; the checks run with VF_REPO pointing at that copy.
"""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def one(sid, check=True, props=None):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % repo, '/')
        dd = os.path.join(tmp, 'demo')
        shutil.copytree(d, dd)
        env = 'PYTHONPATH=%s ' % repo
        c0, o0 = sh(env + 'bash %s/demo.sh' % dd, repo)
        a, ao = sh('git apply %s/patch.diff' % d, repo)
        if a:
            return sid, 'PATCH DOES NOT APPLY ' + ao
        pyx = 'cfog/' in open(os.path.join(d, 'patch.diff')).read()
        b = 0
        if pyx:
            b, bo = sh('find cfog -name "*.pyx" | xargs -n1 /opt/venv/bin/python -m cython; /opt/venv/bin/python setup.py build_ext --inplace', repo)
        t, to = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --ignore=test/clustering/minhash_test.py --ignore=test/clustering/nn_descent_test.py --ignore=test/clustering/ppjoin_test.py --ignore=test/clustering/quickjoin_test.py test 2>&1 | tail -3', repo)
        t_ok = ' passed' in to and 'failed' not in to and 'error' not in to
        c1, o1 = sh(env + 'bash %s/demo.sh' % dd, repo)
        res = 'demo %d->%d build %d tests %s' % (c0, c1, b, 'ok' if t_ok else to.strip())
        if check:
            for p in (props or [meta['property']]):
                k, ko = sh('VF_REPO=%s VF_EVIDENCE=%s/ev python3 check.py %s' % (repo, tmp, p), HERE, 1200)
                cl = [l.strip() for l in ko.splitlines() if l.startswith('  clause')]
                res += ' | %s rc=%d %s' % (p, k, '; '.join(cl) if k == 1 else '' if k == 0 else ko[-300:])
        return sid, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    check = '--nocheck' not in a
    props = None
    if '--props' in a:
        props = a[a.index('--props') + 1].split(',')
        del a[a.index('--props'):a.index('--props') + 2]
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for sid, res in ex.map(lambda s: one(s, check, props), ids):
            print('%-28s %s' % (sid, res), flush=True)
