#!/usr/bin/env python3
"""Fire every rule on a broken variant of the tree and keep it quiet on rewritten ones.

    selftest/run.py [name-substring ...]

Each case edits a scratch copy of the tree (removed afterwards) and runs checks on it.
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases import BROKEN, QUIET  # noqa

ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'sa', 'checks')) if f[0] == 'c' and f[1:3].isdigit())


def variant(edits):
    d = tempfile.mkdtemp(prefix='variant-')
    for f in os.listdir('/repo'):
        if f.endswith('.py'):
            shutil.copy('/repo/' + f, d)
    for file, old, new in edits:
        path = os.path.join(d, file)
        s = open(path).read()
        if s.count(old) < 1:
            shutil.rmtree(d)
            raise SystemExit('no match in %s: %r' % (file, old))
        s = s.replace(old, new, 1)
        compile(s, path, 'exec')
        open(path, 'w').write(s)
    return d


def one(case, pids):
    name, edits = case
    d = variant(edits)
    res = {}
    try:
        code = ("import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)\n"
                "from sa import core\n"
                "w = core.World()\n"
                "for pid in %r:\n"
                "    try:\n"
                "        bad = core.run(pid, w)[0]\n"
                "        print('RES', pid, len(bad), bad[0].text().replace(chr(10), ' ')[:400] if bad else '')\n"
                "    except Exception as ex:\n"
                "        import traceback; traceback.print_exc(file=sys.stdout)\n"
                "        print('RES', pid, 'ERR', repr(ex))\n") % (ROOT, pids)
        out = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True,
                             env=dict(os.environ, SA_REPO=d, PYTHONHASHSEED='0'))
        for line in out.stdout.splitlines():
            if line.startswith('RES '):
                _, pid, n, *t = line.split(' ', 3)
                res[pid] = (n, t[0] if t else '')
        if not res:
            res['?'] = ('ERR', out.stderr[-300:])
        elif any(n == 'ERR' for n, t in res.values()):
            res['trace'] = ('ERR', out.stdout[-1500:])
    finally:
        shutil.rmtree(d)
    return res


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    pick = lambda cs: [c for c in cs if not want or any(w in c[0] or w in c[-1:] for w in want)]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = []
        for name, edits, pids in pick(BROKEN):
            jobs.append((name, pids, ex.submit(one, (name, edits), pids)))
        for name, edits in pick(QUIET):
            jobs.append((name, None, ex.submit(one, (name, edits), ALL)))
        for name, pids, j in jobs:
            res = j.result()
            if pids is not None:
                ok = all(res.get(p, ('0', ''))[0] not in ('0', 'ERR') for p in pids)
            else:
                ok = all(n == '0' for n, t in res.values())
            bad += not ok
            if not ok or '-v' in sys.argv:
                print('ok  ' if ok else 'FAIL', name)
                for p, (n, t) in sorted(res.items()):
                    if pids is not None or n != '0':
                        print('      ', p, n, t[:1500])
    print('%d cases, %d unexpected' % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
