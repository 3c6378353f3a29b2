#!/usr/bin/env python3
"""Names the seeded bugs which change or adjoin only lines that are not of the original repository."""
import subprocess, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '--root', '10afe0c..HEAD', '--', f], capture_output=True, text=True).stdout
        cache[f] = [l.startswith('^10afe0c') or l[:40].lstrip('^').startswith('10afe0c') for l in o.split('\n')]
    return cache[f]
for d in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    f, n, rem, adj, mine = None, 0, 0, 0, 0
    L = open(d).read().split('\n')
    for i, l in enumerate(L):
        m = re.match(r'@@ -(\d+)', l)
        if l.startswith('+++ b/'): f = l[6:]
        elif m: n = int(m[1])
        elif f is None or l.startswith('---') or l.startswith('diff') or l.startswith('index'): f = f if not l.startswith('diff') else None
        elif l.startswith('+'):
            for k in (n - 1, n):
                if k - 1 < len(blame(f)) and blame(f)[k - 1]: adj += 1
        else:
            if l.startswith('-') and blame(f)[n - 1]: rem += 1
            if l.startswith('-') and not blame(f)[n - 1]: mine += 1
            n += 1
    if rem == 0: print(os.path.basename(os.path.dirname(d)), 'adjoins %d, removes %d lines of fixes' % (adj, mine))
