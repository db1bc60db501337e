"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

1. build  : the Cython extension of /repo's working tree, in a scratch directory
2. model  : TLC explores the specification's state machines and checks their invariants;
            it also prints the small-scope cases it enumerated
3. drive  : the cases (TLC's and the generator's) are replayed into the real code of /repo
4. judge  : TLC walks the recorded trace with the property's trace specification
"""
import sys, os, json, time, random, shutil, subprocess, tempfile, importlib, re, signal, hashlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NW = int(os.environ.get('VF_WORKERS', '8'))

from vf import tlc
from vf.props import PROPS


class Machinery(Exception):
    pass


def build_ext(scratch):
    """Compile /repo's current cfog/**/*.pyx into scratch/stage/cfog (never into /repo)."""
    stage = os.path.join(scratch, 'stage')
    src = os.path.join(REPO, 'cfog')
    dst = os.path.join(stage, 'cfog')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    inc = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], text=True).strip()
    suf = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).strip()
    for d, _, fs in os.walk(dst):
        for f in fs:
            if f.endswith('.pyx'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, stage)
                r = subprocess.run([PY, '-m', 'cython', rel], cwd=stage, capture_output=True, text=True)
                if r.returncode:
                    raise Machinery('cython failed: ' + r.stderr[-2000:])
                so = rel[:-4] + suf
                r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-g0', '-w', '-fwrapv', '-I' + inc,
                                    rel[:-4] + '.c', '-o', so], cwd=stage, capture_output=True, text=True)
                if r.returncode:
                    raise Machinery('gcc failed: ' + r.stderr[-2000:])
    return stage


def drive(driver, cases, scratch, stage, limit, seed):
    """Replay the cases with NW worker processes; hangs and crashes become events."""
    parts = [cases[w::NW] for w in range(NW)]
    workers = []
    for w, part in enumerate(parts):
        if not part:
            continue
        cf = os.path.join(scratch, 'cases_%d.ndjson' % w)
        of = os.path.join(scratch, 'events_%d.ndjson' % w)
        with open(cf, 'w') as f:
            for c in part:
                f.write(json.dumps(c) + '\n')
        open(of, 'w').close()
        workers.append(dict(w=w, part=part, cf=cf, of=of, proc=None, done=False, deaths=0))

    def count(of):
        with open(of, 'rb') as f:
            return f.read().count(b'\n')

    def spawn(k):
        env = dict(os.environ)
        env['PYTHONPATH'] = os.pathsep.join([stage, REPO, VERIF])
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONHASHSEED'] = str((seed * 1000 + k['w'] * 7 + 1) % 4294967295)
        env['PYTHONWARNINGS'] = 'ignore'
        env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
        env['VF_SCRATCH'] = scratch
        errf = open(os.path.join(scratch, 'stderr_%d' % k['w']), 'ab')
        k['proc'] = subprocess.Popen([PY, os.path.join(VERIF, 'vf', 'worker.py'), driver, k['cf'], k['of'],
                                      str(count(k['of'])), str(limit)],
                                     env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=errf,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
        errf.close()
        k['size'] = os.path.getsize(k['of'])
        k['t'] = time.time()

    def killpg(k):
        try:
            os.killpg(k['proc'].pid, signal.SIGKILL)
        except OSError:
            pass
        k['proc'].wait()

    for k in workers:
        spawn(k)
    while not all(k['done'] for k in workers):
        time.sleep(0.05)
        for k in workers:
            if k['done']:
                continue
            rc = k['proc'].poll()
            if rc is None:
                s = os.path.getsize(k['of'])
                if s != k['size']:
                    k['size'] = s
                    k['t'] = time.time()
                    continue
                elif time.time() - k['t'] > 2 * limit + 20:
                    rc = 'Hang'
                else:
                    continue
            killpg(k)
            if rc == 0:
                k['done'] = True
                continue
            n = count(k['of'])
            if n >= len(k['part']):
                k['done'] = True
                continue
            if n == 0 and k['deaths'] == 0 and rc == 1:
                # the worker itself could not start (driver import error)
                tail = open(os.path.join(scratch, 'stderr_%d' % k['w']), errors='replace').read()[-1500:]
                raise Machinery('worker did not start: ' + tail)
            k['deaths'] += 1
            ev = dict(k['part'][n])
            ev['err'] = 'Hang' if rc == 'Hang' else 'Crash(%s)' % rc
            with open(k['of'], 'a') as f:
                f.write(json.dumps(ev) + '\n')
            if k['deaths'] >= 3 or n + 1 >= len(k['part']):
                k['done'] = True
                continue
            spawn(k)
    events = []
    for k in workers:
        with open(k['of']) as f:
            for line in f:
                events.append(json.loads(line))
    events.sort(key=lambda e: e['i'])
    return events


def judge(module, events, scratch, lanes=32):
    """Every event goes through the trace specification; returns {event id: clauses}."""
    tr = os.path.join(scratch, 'trace_%s.ndjson' % module)
    with open(tr, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    cfg = 'SPECIFICATION TraceSpec\nCONSTANT Verdict <- %sVerdict\nCONSTANT Lanes = %d\nCHECK_DEADLOCK FALSE\n' % (module, lanes)
    r = tlc.run(module, cfg, env={'VF_TRACE': tr}, scratch=scratch, heap='8g', timeout=3400, workers=NW)
    if not r.ok:
        raise Machinery('TLC failed while judging %s:\n%s' % (module, r.out[-3000:]))
    if r.distinct != len(events) + lanes:
        raise Machinery('judge consumed %d of %d events' % (r.distinct - lanes, len(events)))
    bad = {}
    for line in r.out.splitlines():
        if line.startswith('"FAIL '):
            m = re.match(r'FAIL (\d+) (.*)$', unquote(line))
            bad.setdefault(int(m.group(1)), set()).update(re.findall(r'"([^"]*)"', m.group(2)))
    return bad, r


def unquote(line):
    """Undo TLC's quoting of a printed string."""
    return line.strip()[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def case_key(case):
    c = {k: v for k, v in case.items() if k not in ('i', 'err')}
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) (key|clause)=(\S+) (.*)', line)
            if m:
                out[(m.group(1), m.group(3))] = m.group(4).strip()
    return out


def run_models(P, tier, scratch, log):
    """Model-check the property's state machines; collect the cases TLC printed."""
    st = tr = 0
    cases = []
    info = []
    for m in P.get('models', ()):
        module, cfgname = m[0], m[1]
        names = [cfgname + '.' + tier + '.cfg', cfgname + '.cfg']
        for n in names:
            p = os.path.join(tlc.SPEC, 'cfg', n)
            if os.path.exists(p):
                break
        else:
            raise Machinery('no cfg for ' + cfgname)
        # tools/mutate.py only: the models do not depend on /repo, their cases can be kept
        memo = os.environ.get('VF_CASECACHE')
        if memo and os.path.exists(os.path.join(memo, n)):
            cases += [json.loads(l) for l in open(os.path.join(memo, n))]
            continue
        r = tlc.run(module, open(p).read(), scratch=scratch, heap='8g', timeout=3000, workers=NW)
        if not r.ok:
            raise Machinery('model %s (%s) failed:\n%s' % (module, n, r.out[-4000:]))
        if r.distinct < 2:
            raise Machinery('model %s (%s) is vacuous' % (module, n))
        st += r.distinct
        tr += r.generated
        k = len(cases)
        for line in r.out.splitlines():
            if line.startswith('"CASE {'):
                cases.append(json.loads(unquote(line)[5:]))
        if memo:
            with open(os.path.join(memo, n), 'w') as f:
                f.writelines(json.dumps(c) + '\n' for c in cases[k:])
        k = len(cases) - k
        info.append(dict(module=module, cfg=n, distinct=r.distinct, generated=r.generated, cases=k, wall=round(r.wall, 1)))
        log('model %-22s %-28s %8d distinct %9d generated %6d cases  %.1fs' % (module, n, r.distinct, r.generated, k, r.wall))
    return st, tr, cases, info


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    nomodel = False
    a = argv[1:]
    while a:
        if a[0] == '--tier':
            tier = a[1]; a = a[2:]
        elif a[0] == '--replay':
            replay = a[1]; a = a[2:]
        elif a[0] == '--nomodel':
            nomodel = True; a = a[1:]
        else:
            raise SystemExit('unknown argument ' + a[0])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[prop]
    t0 = time.time()

    def log(s):
        print('[%s %5.1fs] %s' % (prop, time.time() - t0, s), flush=True)

    scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        stage = build_ext(scratch)
        log('extension built from %s' % REPO)
        if replay or nomodel:
            st = tr = 0
            tcases, info = [], []
        else:
            st, tr, tcases, info = run_models(P, tier, scratch, log)
        drv = importlib.import_module('drivers.' + P['driver'])
        if replay:
            cases = [c['case'] for c in json.load(open(replay))['failures']]
        else:
            rng = random.Random('%s/%s/%d' % (prop, tier, seed))
            cases = list(drv.expand(prop, tcases)) if tcases else []
            nspec = len(cases)
            sampled = list(drv.gen(prop, rng, tier))
            assert sampled, 'no sampled case'
            assert nspec or nomodel, 'no enumerated case'
            cases += sampled
        for n, c in enumerate(cases):
            c['i'] = n + 1
        log('%d cases (%d enumerated by the specification)' % (len(cases), 0 if replay else nspec))
        events = drive(P['driver'], cases, scratch, stage, P.get('limit', 20), seed)
        log('%d events recorded' % len(events))
        byid = {}
        for e in events:
            byid[e['i']] = e
        if hasattr(drv, 'post'):
            events = drv.post(prop, events)
        bad, jr = judge(P['judge'], events, scratch)
        log('%d events judged by %s, %d rejected' % (len(events), P['judge'], len(bad)))
        st += jr.distinct
        tr += jr.generated
        kf = known()
        failures, hits = [], []
        bycase = {c['i']: c for c in cases}
        for i in sorted(bad):
            c = bycase[i]
            k = case_key(c)
            if (prop, k) in kf:
                hits.append((k, kf[(prop, k)]))
            elif all((prop, x) in kf for x in bad[i]):
                # the trace specification gives the recorded class of inputs a clause of its own
                hits += [(x, kf[(prop, x)]) for x in bad[i]]
            else:
                failures.append(dict(clauses=sorted(bad[i]), case=c, event=byid[i], key=k))
        for k, d in sorted(set(hits)):
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
        if len(events) < len(cases) and not failures:
            raise Machinery('only %d of %d cases were executed' % (len(events), len(cases)))
        ops = {}
        for e in events:
            ops[e['op']] = ops.get(e['op'], 0) + 1
        import collections
        srng = random.Random(seed)
        sample = [e for e in srng.sample(events, min(200, len(events))) if len(json.dumps(e)) < 1500][:4]
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=st, transitions=tr, traces_validated_against_impl=len(events),
                                samples=sample, calls_per_operation=ops, models=info,
                                cases_from_specification=0 if replay else nspec),
                  assumptions=P.get('assumptions', []),
                  wall_s=round(time.time() - t0, 2), violations=len(failures))
        EVID = os.environ.get('VF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(EVID, exist_ok=True)
        if not replay:
            with open(os.path.join(EVID, prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        if failures:
            rp = os.path.join(EVID, 'replay_%s.json' % prop) if not replay else replay
            cl = {}
            for x in failures:
                for c in x['clauses']:
                    cl[c] = cl.get(c, 0) + 1
            failures.sort(key=lambda x: len(json.dumps(x['case'])))
            if not replay:
                with open(rp, 'w') as f:
                    json.dump(dict(property=prop, rerun='python3 check.py %s --replay %s' % (prop, rp),
                                   clauses=cl, failures=failures[:200]), f, indent=1)
            for c in sorted(cl):
                print('  clause %s: %d events' % (c, cl[c]))
            for x in failures[:int(os.environ.get('VF_SHOW', '3'))]:
                print('  %s %s' % (','.join(x['clauses']), json.dumps(x['event'])[:700]))
            print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
            return 1
        log('held')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def cli():
    try:
        rc = main(sys.argv[1:])
    except (Machinery, tlc.TLCError) as e:
        print('MACHINERY-ERROR: %s' % e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
