"""Nothing to build: confirm the framework's own files parse and the tree can be read."""
import ast
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = 0
for d, _, fs in os.walk(os.path.join(ROOT, 'sa')):
    for f in fs:
        if f.endswith('.py'):
            ast.parse(open(os.path.join(d, f)).read())
            n += 1
sys.path.insert(0, ROOT)
from sa.program import Program  # noqa
p = Program()
print('%d framework files, %d modules and %d functions to analyse' % (n, len(p.modules), len(p.funcs)))
