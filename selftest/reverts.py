"""Which check reports each repaired defect again when its repair is undone: python3 selftest/reverts.py"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'sa', 'checks')) if f[0] == 'c' and f[1:3].isdigit())


def git(*a):
    return subprocess.run(['git', '-C', '/repo'] + list(a), capture_output=True, text=True, check=True).stdout


def one(line):
    h, title = line.split(' ', 1)
    t = tempfile.mkdtemp(prefix='revert-')
    try:
        for f in glob.glob('/repo/*.py'):
            shutil.copy(f, t)
        diff = git('diff', h, h + '^')
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '-3' if 0 else '-v', '--directory', t], cwd='/', input=diff, text=True, capture_output=True)
        if r.returncode:
            return h, title, ['does not apply']
        code = ("import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)\n"
                "from sa import core\nw = core.World()\n"
                "for pid in %r:\n"
                "    b = core.run(pid, w)[0]\n"
                "    if b: print('RES', pid)\n") % (ROOT, ALL)
        out = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, env=dict(os.environ, SA_REPO=t))
        return h, title, [l[4:] for l in out.stdout.splitlines() if l.startswith('RES')] + [out.stderr[-200:]] * bool(out.stderr)
    finally:
        shutil.rmtree(t)


lines = [l for l in git('log', '--format=%h %s', '7f0c4d3..HEAD').splitlines() if ' fix:' in l]
with cf.ThreadPoolExecutor(6) as pool:
    for h, title, got in pool.map(one, lines):
        print(h, got, title)
