#!/usr/bin/env python3
"""Regenerates harness/cases/*.inc from *.sql with a native dump program (argument); every
tree is reviewed by hand before it is committed: the .inc files are the oracle."""
import glob, os, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__)) + '/../harness/cases/'
c = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
for f in sys.argv[2:] or sorted(glob.glob(D + '*.sql')):
    sql = [l for l in open(f).read().split('\n') if l]
    out = subprocess.run([sys.argv[1]] + sql, stdout=subprocess.PIPE, text=True).stdout.split('\n')
    r = []
    for s, q, t in zip(sql, out[::2], out[1::2]):
        assert s == q, (s, q)
        if t.strip().startswith('ERR'): print('REJECTED', s, t)
        else: r.append('CASE(%s,\n    %s)\n' % (c(s), c(t.strip())))
    open(f[:-4] + '.inc', 'w').write(''.join(r)); print(f, len(r))
