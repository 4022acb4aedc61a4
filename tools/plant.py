"""Confirm planted bugs: python3 tools/plant.py SPECS.py [id...]

SPECS.py defines BUGS = {id: (property, [(file, old, new)...], demo source, needs, breaks)}.
For each one: make a scratch copy of /repo, apply the edit, run the demonstration with and without
it and the stable tests with it; write seeded/<id>/ when all is as it must be.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
STABLE = set(STABLE if isinstance(STABLE, list) else STABLE.keys())
DEMO = '#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n'


def tests(repo, scratch):
    script = open('/opt/vp/test.sh').read()
    script = script.replace('D=/opt/vp/reports', 'D=%s/reports' % scratch).replace('cd /repo', 'cd %s' % repo)
    path = os.path.join(scratch, 'test.sh')
    open(path, 'w').write(script)
    out = os.path.join(scratch, 'out.json')
    subprocess.run(['bash', path, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return STABLE - set(json.load(open(out))['passed'])


def one(name, spec):
    prop, edits, demo, needs, breaks = spec
    scratch = tempfile.mkdtemp(prefix='plant-%s-' % name)
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        d = os.path.join(scratch, 'demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)

        def run():
            return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, text=True)
        r = run()
        if r.returncode:
            return name, 'demo fails without the change: ' + (r.stdout + r.stderr)[-400:]
        for file, old, new in edits:
            p = os.path.join(repo, file)
            text = open(p).read()
            if text.count(old) != 1:
                return name, 'edit matches %d times in %s: %r' % (text.count(old), file, old[:60])
            open(p, 'w').write(text.replace(old, new))
        r = run()
        if not r.returncode:
            return name, 'demo passes with the change'
        how = (r.stdout + r.stderr).strip().splitlines()[-1:]
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        missing = tests(repo, scratch) if '--notest' not in sys.argv else set()
        if missing:
            return name, 'breaks %d tests: %s' % (len(missing), sorted(missing)[:3])
        out = os.path.join(ROOT, 'seeded', name)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return name, 'ok (%s)' % how
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    space = {}
    exec(open(sys.argv[1]).read(), space)
    names = [a for a in sys.argv[2:] if not a.startswith('-')] or list(space['BUGS'])
    with ThreadPoolExecutor(2) as pool:
        for name, text in pool.map(lambda n: one(n, space['BUGS'][n]), names):
            print(name, text, flush=True)
