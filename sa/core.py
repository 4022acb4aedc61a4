"""Running checks: known findings, reports, evidence."""
import importlib
import json
import os
import time

from .program import Program, AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Finding:
    """One construct that breaks a rule.

    key: identifies the construct without line numbers (rule|function|detail)
    """

    def __init__(self, rule, func, node, message, detail='', path=(), file=None, line=None):
        self.rule = rule
        self.func = func
        qual = getattr(func, 'qual', func)
        self.key = '%s|%s|%s' % (rule, qual, detail)
        self.file = file or getattr(func, 'file', '?')
        self.line = line or getattr(node, 'lineno', '?')
        self.message = message
        self.path = list(path)

    def text(self):
        qual = getattr(self.func, 'qual', self.func)
        out = '%s:%s: in %s: [%s] %s' % (self.file, self.line, qual, self.rule, self.message)
        if self.path:
            out += '\n    path: ' + ' <- '.join(self.path)
        return out + '\n    key: ' + self.key


class World:
    """Lazily built analyses of the current tree, shared by the rules."""

    def __init__(self):
        self.program = Program()
        self._eng = None
        self._flows = {}

    @property
    def eng(self):
        if self._eng is None:
            from .absint import Engine
            from . import contracts
            e = Engine(self.program, contracts.contract)
            e.modular = contracts.modular(self.program)
            e.run_modules()
            ents = contracts.entries(self.program, e)
            if len(ents) < 300:
                raise AnalysisBroken('only %d public operations found' % len(ents))
            e.run_entries(ents)
            self._eng = e
        return self._eng

    def flow(self, f):
        """def-use facts of a function (nested ones through the function around them)"""
        from .flow import Flow
        if f.qual not in self._flows:
            if f.parent is not None:
                self._flows[f.qual] = self.flow(f.parent).sub(f.node)
            else:
                self._flows[f.qual] = Flow(f.node, f)
        return self._flows[f.qual]

    def engine_stats(self):
        e = self.eng
        return {'public_operations': len(e.entry_roots), 'analysis_contexts': len(e.ctx_list),
                'functions_reached': len({c.func.qual for c in e.ctx_list} & set(self.program.funcs)),
                'functions_total': len(self.program.funcs)}


def load_known(pid):
    """key -> description of the known findings of a property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('finding: property=%s key=' % pid):
                rest = line.split(' key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                out[key] = text
    return out


def any_function(key):
    rule, _, detail = key.split('|', 2)
    return '%s|*|%s' % (rule, detail)


def run(pid, world=None):
    """-> (violations, known, result) where result is the check's coverage dict"""
    mod = importlib.import_module('sa.checks.' + pid.lower())
    world = world or World()
    findings, coverage, meta = mod.check(world)
    known = load_known(pid)
    seen = set()
    bad, old = [], []
    for f in findings:
        if (f.key, f.line) in seen:
            continue
        seen.add((f.key, f.line))
        k = f.key if f.key in known else any_function(f.key)
        if k in known:
            f.known = k
            old.append(f)
        else:
            bad.append(f)
    return bad, old, coverage, meta, known


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    replay_dir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    try:
        bad, old, coverage, meta, known = run(pid)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 3
    wall = time.time() - t0
    print('%s: %s' % (pid, '; '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    printed = set()
    for f in old:
        if f.known not in printed:
            printed.add(f.known)
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[f.known], f.known))
    replay = os.path.join(replay_dir, pid + '.txt')
    if bad:
        with open(replay, 'w') as o:
            for f in bad:
                o.write(f.text() + '\n')
        for f in bad:
            print(f.text())
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    cov = {'explanation': meta['explanation']}
    cov.update(coverage)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'wall_s': round(wall, 2), 'violations': len(bad),
        'assumptions': meta.get('assumptions', []),
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
        o.write('\n')
    return 1 if bad else 0
