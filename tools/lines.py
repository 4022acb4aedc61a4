"""Do planted bugs change only lines of the original repository? python3 tools/lines.py BASE"""
import glob, re, subprocess, sys
base = sys.argv[1] if len(sys.argv) > 1 else '7f0c4d3'
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None
    for line in open(p):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            old = subprocess.run(['git', '-C', '/repo', 'show', '%s:%s' % (base, f)], capture_output=True, text=True).stdout.split('\n')
        elif line.startswith('-') and line[1:].rstrip('\n').strip() and line[1:].rstrip('\n') not in old:
            print(p.split('/')[-2], 'NOT ORIGINAL:', line.rstrip())
