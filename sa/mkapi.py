"""Regenerates api.json (run by hand when the public API is deliberately extended)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program
p = Program()
out = set()
for m in p.modules.values():
    for n in m.funcs:
        if not n.startswith('_'):
            out.add('%s.%s' % (m.name, n))
    for c in m.classes.values():
        for n in c.methods:
            if not n.startswith('_'):
                out.add('%s.%s' % (c.name, n))
json.dump(sorted(out), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.json'), 'w'), indent=0)
print(len(out))
