"""Which checks catch which planted bug: python3 selftest/seeds.py [name-substring...]"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'sa', 'checks')) if f[0] == 'c' and f[1:3].isdigit())


def one(d):
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        for f in glob.glob('/repo/*.py'):
            shutil.copy(f, t)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', t, d + '/patch.diff'], cwd='/', check=True)
        code = ("import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)\n"
                "from sa import core\nw = core.World()\n"
                "for pid in %r:\n"
                "    try:\n        b = core.run(pid, w)[0]\n        if b: print('RES', pid, b[0].text().split(chr(10))[0][:150])\n"
                "    except Exception as ex: print('RES', pid, 'ERR', repr(ex))\n") % (ROOT, ALL)
        out = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, env=dict(os.environ, SA_REPO=t))
        got = [l.split(' ', 2)[1:] for l in out.stdout.splitlines() if l.startswith('RES ')]
        return os.path.basename(d), prop, got, out.stderr[-300:]
    finally:
        shutil.rmtree(t)


dirs = sorted(d for d in glob.glob(ROOT + '/seeded/*') if os.path.isdir(d) and (len(sys.argv) < 2 or any(a in d for a in sys.argv[1:])))
missed = []
with cf.ThreadPoolExecutor(4) as pool:
    for name, prop, got, err in pool.map(one, dirs):
        hit = [g for g in got if g[0] == prop]
        print('%-8s %-26s %s [%s] %s %s' % ('caught' if hit else 'MISSED', name, prop, ' '.join(g[0] for g in got), hit[0][1] if hit else '', err))
        if not hit:
            missed.append(name)
print(len(dirs), 'bugs', len(missed), 'missed', missed)
