"""Executes recorded cases against the real code and writes one event per case.

usage: worker.py DRIVER CASES.ndjson OUT.ndjson START TIMEOUT
Only calls the public API and encodes what it returned; judges nothing.
"""
import sys, os, json, signal, importlib, resource, traceback, gc


class CaseTimeout(BaseException):
    pass


def on_alarm(sig, frm):
    raise CaseTimeout()


def main():
    drv, cases, out, start, limit = sys.argv[1:6]
    start = int(start)
    limit = int(limit)
    os.setpgrp() if os.environ.get('VF_SETPG') else None
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    real = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.setrecursionlimit(3000)
    mod = importlib.import_module('drivers.' + drv)
    signal.signal(signal.SIGALRM, on_alarm)
    timeouts = 0
    with open(cases) as f, open(out, 'a') as fo:
        for n, line in enumerate(f):
            if n < start:
                continue
            case = json.loads(line)
            ev = dict(case)
            ev['err'] = ''
            try:
                signal.alarm(limit)
                try:
                    res = mod.OPS[case['op']](case)
                finally:
                    signal.alarm(0)
                ev.update(res)
            except CaseTimeout:
                ev['err'] = 'Timeout'
                timeouts += 1
            except Exception as e:
                if os.environ.get('VF_DEBUG'):
                    traceback.print_exc()
                ev['err'] = type(e).__name__ + ': ' + str(e)[:100].encode('ascii', 'backslashreplace').decode()
            fo.write(json.dumps(ev) + '\n')
            fo.flush()
            if timeouts >= 3:
                break


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
