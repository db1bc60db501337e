"""Thin wrapper around TLC: run a module, collect counts, printed tuples and errors."""
import os, re, subprocess, shutil, tempfile, time

JAR = '/opt/veriftools/tla/tla2tools.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d)
                          if f.endswith('.jar') and 'ommunity' in f)
    return ':'.join(jars)


class TLCError(Exception):
    pass


class Result(object):
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.prints = []
        self.ok = False
        self.out = ''
        self.wall = 0.0
        self.violated = None


def run(module, cfg, env=None, workers=8, heap='6g', timeout=3000, args=(), scratch=None):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns Result."""
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    try:
        cfgp = os.path.join(tmp, module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            e.update(env)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-Djava.io.tmpdir=' + tmp,
               '-DTLA-Library=' + SPEC, '-cp', classpath(), 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(tmp, 'm'),
               '-config', cfgp] + list(args) + [os.path.join(SPEC, module + '.tla')]
        outp = os.path.join(tmp, 'out.txt')
        with open(outp, 'w') as fo:
            try:
                rc = subprocess.call(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=tmp)
            except subprocess.TimeoutExpired:
                raise TLCError('TLC timed out after %ss on %s' % (timeout, module))
        with open(outp, errors='replace') as f:
            out = f.read()
        r = Result()
        r.out = out
        r.rc = rc
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            r.generated = int(m[-1][0].replace(',', ''))
            r.distinct = int(m[-1][1].replace(',', ''))
        mi = re.search(r'Invariant (\S+) is violated|Temporal properties were violated|property (\S+) .*violated|Deadlock reached', out)
        if mi:
            r.violated = mi.group(0)
        r.ok = rc == 0 and 'Model checking completed. No error has been found' in out
        r.wall = time.time() - t0
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
